------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers beyond TLC's 32 bits: little-endian sequences of limbs  *)
(* in base 10000, without leading (rightmost) zero limbs; <<>> is zero.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

BnBase == 10000

RECURSIVE BnNorm(_)
BnNorm(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN BnNorm(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE BnOf(_)
BnOf(n) == IF n = 0 THEN <<>> ELSE <<n % BnBase>> \o BnOf(n \div BnBase)

BnAt(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE BnAddFrom(_, _, _, _)
BnAddFrom(a, b, i, carry) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
  ELSE LET s == BnAt(a, i) + BnAt(b, i) + carry
       IN <<s % BnBase>> \o BnAddFrom(a, b, i + 1, s \div BnBase)
BnAdd(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE TLCEval(BnAddFrom(a, b, 1, 0))

\* a - b for a >= b
RECURSIVE BnSubFrom(_, _, _, _)
BnSubFrom(a, b, i, borrow) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] - BnAt(b, i) - borrow
       IN <<IF s < 0 THEN s + BnBase ELSE s>> \o BnSubFrom(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
BnSub(a, b) == TLCEval(BnNorm(BnSubFrom(a, b, 1, 0)))

\* -1, 0, 1
RECURSIVE BnCmpFrom(_, _, _)
BnCmpFrom(a, b, i) ==
  IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE BnCmpFrom(a, b, i - 1)
BnCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE BnCmpFrom(a, b, Len(a))

BnDiff(a, b) == IF BnCmp(a, b) >= 0 THEN BnSub(a, b) ELSE BnSub(b, a)

\* times a small number, 0 <= m <= 200000
RECURSIVE BnMulFrom(_, _, _, _)
BnMulFrom(a, m, i, carry) ==
  IF i > Len(a) THEN BnOf(carry)
  ELSE LET s == a[i] * m + carry IN <<s % BnBase>> \o BnMulFrom(a, m, i + 1, s \div BnBase)
BnMulSmall(a, m) == IF m = 0 \/ a = <<>> THEN <<>> ELSE IF m = 1 THEN a ELSE TLCEval(BnMulFrom(a, m, 1, 0))

RECURSIVE BnMul(_, _)
BnMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE BnAdd(BnMulSmall(a, b[1]),
             LET r == BnMul(a, BnNorm(Tail(b))) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r)

RECURSIVE BnMulPow2(_, _)
BnMulPow2(a, j) == IF j <= 0 \/ a = <<>> THEN a
                   ELSE IF j > 16 THEN BnMulPow2(BnMulSmall(a, 65536), j - 16) ELSE BnMulSmall(a, 2^j)

RECURSIVE BnPow(_, _)
BnPow(m, e) == IF e = 0 THEN <<1>> ELSE BnMulSmall(BnPow(m, e - 1), m)

\* quotient by a small number, 1 <= m <= 200000
RECURSIVE BnDivFrom(_, _, _, _)
BnDivFrom(a, m, i, rest) ==
  IF i = 0 THEN <<>>
  ELSE LET s == rest * BnBase + a[i] IN BnDivFrom(a, m, i - 1, s % m) \o <<s \div m>>
BnDivSmall(a, m) == TLCEval(BnNorm(BnDivFrom(a, m, Len(a), 0)))

\* without the last j limbs
BnDrop(a, j) == SubSeq(a, j + 1, Len(a))

(***************************************************************************)
(* A recorded positive float x is an exact dyadic number: kind "num",      *)
(* x = n * 2^e.  FloatNear: x is p/q up to a relative error 1/tol.         *)
(***************************************************************************)
BnGiga == <<0, 0, 10>>     \* 10^9

FloatWithin(x, p, q, tol) ==
  CASE x.k = "zero" -> p = <<>> /\ q # <<>>
    [] x.k = "inf"  -> q = <<>> /\ p # <<>>
    [] x.k = "num"  -> /\ p # <<>> /\ q # <<>>
                       /\ LET lhs == BnMulPow2(BnMul(x.n, q), x.e)
                              rhs == BnMulPow2(p, -x.e)
                          IN BnCmp(BnMul(BnDiff(lhs, rhs), tol), rhs) <= 0
    [] OTHER -> FALSE
FloatNear(x, p, q) == FloatWithin(x, p, q, BnGiga)
=============================================================================
