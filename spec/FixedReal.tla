------------------------------ MODULE FixedReal -----------------------------
(***************************************************************************)
(* Real numbers with twenty decimals on BigNat: [s |-> sign, m |-> the     *)
(* magnitude times 10^20], and the circular and exponential functions by   *)
(* their series.  A recorded float is rounded to twenty decimals.          *)
(***************************************************************************)
EXTENDS BigNat, SequencesExt

FrLimbs == 5                                     \* 10^20 = BnBase^FrLimbs
FrOneM  == <<0, 0, 0, 0, 0, 1>>
FrZero  == [s |-> 1, m |-> <<>>]
FrOne   == [s |-> 1, m |-> FrOneM]
FrPi    == [s |-> 1, m |-> <<3846, 7932, 3589, 9265, 1415, 3>>]
FrSqrtPi == [s |-> 1, m |-> <<2730, 5160, 905, 5385, 7724, 1>>]
FrSqrt2 == [s |-> 1, m |-> <<4880, 950, 2373, 1356, 4142, 1>>]

FrAbsInt(n) == IF n < 0 THEN -n ELSE n
FrNeg(a) == [a EXCEPT !.s = -a.s]
FrAbs(a) == [a EXCEPT !.s = 1]
FrAdd(a, b) ==
  IF a.s = b.s THEN [s |-> a.s, m |-> BnAdd(a.m, b.m)]
  ELSE IF BnCmp(a.m, b.m) >= 0 THEN [s |-> a.s, m |-> BnSub(a.m, b.m)] ELSE [s |-> b.s, m |-> BnSub(b.m, a.m)]
FrSub(a, b) == FrAdd(a, FrNeg(b))
FrMul(a, b) == [s |-> a.s * b.s, m |-> BnDrop(BnMul(a.m, b.m), FrLimbs)]
FrMulInt(a, n) == [s |-> IF n < 0 THEN -a.s ELSE a.s, m |-> BnMulSmall(a.m, FrAbsInt(n))]
FrDivInt(a, n) == [s |-> IF n < 0 THEN -a.s ELSE a.s, m |-> BnDivSmall(a.m, FrAbsInt(n))]
FrRat(p, q) == FrDivInt(FrMulInt(FrOne, p), q)
\* a <= b
FrLeq(a, b) == LET d == FrSub(b, a) IN d.s = 1 \/ d.m = <<>>
\* |a - b| <= tol, tol a magnitude (times 10^20)
FrNear(a, b, tol) == BnCmp(FrSub(a, b).m, tol) <= 0

---------------------------------------------------------------------------
(* sin(pi p / q), q > 0 *)
\* The series of the sine at 0 <= x <= pi/2.
FrSinSeries(x) ==
  LET sq == TLCEval(FrMul(x, x)) IN
  FoldLeft(LAMBDA acc, k : LET t == FrNeg(FrDivInt(FrDivInt(FrMul(acc.t, sq), 2 * k), 2 * k + 1))
                           IN [t |-> t, sum |-> FrAdd(acc.sum, t)],
           [t |-> x, sum |-> x], <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>>).sum
RECURSIVE FrSinPi(_, _)
FrSinPi(p, q) ==
  LET r == p % (2 * q) IN
  IF r >= q THEN FrNeg(FrSinPi(r - q, q))
  ELSE IF 2 * r > q THEN FrSinPi(q - r, q)
  ELSE FrSinSeries(FrDivInt(FrMulInt(FrPi, r), q))
FrCosPi(p, q) == FrSinPi(2 * p + q, 2 * q)

(* exp(-x), x >= 0: the series of exp(-x / 2^10), squared ten times *)
FrBig == [s |-> 1, m |-> <<0, 0, 0, 0, 0, 47>>]
FrExpNeg(x) ==
  IF FrLeq(FrBig, x) THEN FrZero
  ELSE LET y == TLCEval(FrDivInt(x, 1024))
           e == FoldLeft(LAMBDA acc, k : LET t == FrNeg(FrDivInt(FrMul(acc.t, y), k))
                                         IN [t |-> t, sum |-> FrAdd(acc.sum, t)],
                         [t |-> FrOne, sum |-> FrOne], <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>).sum
       IN FoldLeft(LAMBDA acc, k : FrMul(acc, acc), e, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>)
=============================================================================
