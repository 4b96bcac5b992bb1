--------------------------------- MODULE Rat ---------------------------------
(***************************************************************************)
(* Exact rationals extended with +inf, -inf and NaN: the numbers the       *)
(* specification computes with.  Every finite double is such a rational,   *)
(* so a value recorded from the code enters the specification unrounded.   *)
(*                                                                         *)
(* A number is <<n, d>> in lowest terms with d > 0; +inf is <<1, 0>>, -inf *)
(* is <<-1, 0>>, NaN is <<0, 0>>.                                          *)
(*                                                                         *)
(* The definitions below are the meaning.  TLC's integers have 32 bits, so *)
(* for evaluation they are overridden by java/RatOverrides.java, which     *)
(* computes the same with unbounded integers and writes a component that   *)
(* does not fit 32 bits as a decimal string.  RatSelfTest.tla checks the   *)
(* overrides against the definitions.  Numbers are never compared with =   *)
(* (a string is not comparable to an integer), only with REq, RLt, RLe.    *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
LOCAL Sgn(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
LOCAL DivE(a, b) == IF a < 0 THEN -((-a) \div b) ELSE a \div b  \* exact

R(n, d) ==
  IF d = 0 THEN <<Sgn(n), 0>>
  ELSE LET s == IF d < 0 THEN -1 ELSE 1
           g == Gcd(Abs(n), Abs(d))
       IN <<DivE(s * n, g), DivE(s * d, g)>>

RInt(n)  == <<n, 1>>
RZero    == <<0, 1>>
RInf     == <<1, 0>>
RNegInf  == <<-1, 0>>
RNaN     == <<0, 0>>

RIsNaN(a) == a[1] = 0 /\ a[2] = 0
RIsFin(a) == a[2] # 0
RSign(a)  == Sgn(a[1])

RNeg(a) == <<-a[1], a[2]>>
RAdd(a, b) ==
  IF RIsNaN(a) \/ RIsNaN(b) THEN RNaN
  ELSE IF ~RIsFin(a) THEN (IF ~RIsFin(b) /\ a[1] # b[1] THEN RNaN ELSE a)
  ELSE IF ~RIsFin(b) THEN b
  ELSE R(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) ==
  IF RIsFin(a) /\ RIsFin(b) THEN R(a[1] * b[1], a[2] * b[2])
  ELSE <<Sgn(a[1]) * Sgn(b[1]), 0>>               \* 0 * inf is NaN
RInv(a) == IF RIsNaN(a) THEN a ELSE IF ~RIsFin(a) THEN RZero ELSE R(a[2], a[1])
RDiv(a, b) == RMul(a, RInv(b))

\* As for doubles, every comparison with NaN is false.
RLt(a, b) ==
  IF RIsNaN(a) \/ RIsNaN(b) THEN FALSE
  ELSE IF RIsFin(a) /\ RIsFin(b) THEN a[1] * b[2] < b[1] * a[2]
  ELSE LET w(x) == IF RIsFin(x) THEN 0 ELSE x[1] IN w(a) < w(b)
REq(a, b) ==
  IF RIsNaN(a) \/ RIsNaN(b) THEN FALSE
  ELSE a[1] = b[1] /\ a[2] = b[2]
RLe(a, b) == RLt(a, b) \/ REq(a, b)
\* The same number, NaN included.
RSame(a, b) == REq(a, b) \/ (RIsNaN(a) /\ RIsNaN(b))

RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(b, a) THEN a ELSE b
RAbs(a)    == IF RSign(a) < 0 THEN RNeg(a) ELSE a

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
\* 2^k for an integer k
RPow2(k) == IF k >= 0 THEN <<Pow2(k), 1>> ELSE <<1, Pow2(-k)>>

(***************************************************************************)
(* The double nearest to a decimal text, given as a sequence of character  *)
(* codes such as <<49, 46, 53>> for "1.5" (also "inf", "-inf", "nan").     *)
(* Rounding to the nearest double is defined by IEEE 754 and supplied by   *)
(* the override; the definition here covers decimal integers only.         *)
(* RDecOk: the text is a decimal numeral at all.                           *)
(***************************************************************************)
RECURSIVE DecNat(_, _)
DecNat(s, acc) == IF s = <<>> THEN acc
                  ELSE DecNat(Tail(s), 10 * acc + (Head(s) - 48))
RDecOk(s) == s # <<>> /\ \A i \in DOMAIN s : s[i] \in 48..57
RDec(s) == <<DecNat(s, 0), 1>>
=============================================================================
