----------------------------- MODULE RatSelfTest -----------------------------
(***************************************************************************)
(* The overrides of Rat.tla agree with its definitions.  RatDef is a copy  *)
(* of Rat.tla made by the runner under a name that has no overrides.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, Rat
D == INSTANCE RatDef
N == -5..5
Nums == {<<n, d>> : n \in N, d \in 0..5}
Canon(S) == {D!R(q[1], q[2]) : q \in S}
VARIABLE a, b
Init == a \in Canon(Nums) /\ b \in Canon(Nums)
Next == UNCHANGED <<a, b>>
Agree ==
  /\ R(a[1], a[2]) = a
  /\ RNeg(a) = D!RNeg(a) /\ RAbs(a) = D!RAbs(a) /\ RSign(a) = D!RSign(a)
  /\ RIsNaN(a) = D!RIsNaN(a) /\ RIsFin(a) = D!RIsFin(a) /\ RInv(a) = D!RInv(a)
  /\ RAdd(a, b) = D!RAdd(a, b) /\ RSub(a, b) = D!RSub(a, b)
  /\ RMul(a, b) = D!RMul(a, b) /\ RDiv(a, b) = D!RDiv(a, b)
  /\ RLt(a, b) = D!RLt(a, b) /\ RLe(a, b) = D!RLe(a, b) /\ REq(a, b) = D!REq(a, b)
  /\ RSame(a, b) = D!RSame(a, b)
  /\ RMin(a, b) = D!RMin(a, b) /\ RMax(a, b) = D!RMax(a, b)
  /\ RPow2(a[1]) = D!RPow2(a[1])
\* beyond 32 bits: laws that tie large numbers to small ones
Big == RPow2(80)
Laws ==
  /\ REq(RSub(RAdd(a, Big), Big), a) \/ ~RIsFin(a)
  /\ REq(RDiv(RMul(a, Big), Big), a) \/ ~RIsFin(a)
  /\ RIsFin(a) => RLt(a, Big) /\ RLt(RNeg(Big), a)
  /\ (RIsFin(a) /\ RIsFin(b)) => (RLt(a, b) <=> RLt(RAdd(Big, a), RAdd(Big, b)))
  /\ REq(RDec(<<49,46,53>>), R(3, 2)) /\ RDecOk(<<49,46,53>>) /\ ~RDecOk(<<49,46,46>>)
  /\ REq(RDec(<<49,50>>), RInt(12)) /\ REq(RDec(<<105,110,102>>), RInf)
=============================================================================
