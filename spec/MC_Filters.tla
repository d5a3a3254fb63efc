------------------------------ MODULE MC_Filters ----------------------------
(***************************************************************************)
(* Laws of the circular and exponential functions of FixedReal and of the  *)
(* pulse shapes, at every point of a walk over angles p / q and roll-offs. *)
(***************************************************************************)
EXTENDS Filters, IOUtils
VARIABLES p, q, a, b
vars == <<p, q, a, b>>
Deep == IOEnv.TIER = "thorough"
Denominators == IF Deep THEN 1..12 ELSE {1, 2, 3, 4, 6, 7, 10}
RollOffs == {<<0, 1>>, <<1, 1>>, <<1, 2>>, <<1, 4>>, <<7, 20>>, <<7, 10>>, <<1, 3>>}
Init == p = 0 /\ q \in Denominators /\ \E r \in RollOffs : a = r[1] /\ b = r[2]
Next == p < 3 * q /\ p' = p + 1 /\ UNCHANGED <<q, a, b>>
Spec == Init /\ [][Next]_vars

Eps  == <<0, 0, 1>>                 \* 10^-12
Near(x, y) == FrNear(x, y, Eps)
S(i, j) == FrSinPi(i, j)
C(i, j) == FrCosPi(i, j)
X == FrRat(p, q)
Constants == /\ Near(FrSq(FrSqrt2), FrRat(2, 1)) /\ Near(FrSq(FrSqrtPi), FrPi)
             /\ Near(S(1, 6), FrRat(1, 2)) /\ Near(S(1, 2), FrOne) /\ Near(S(1, 4), FrDivInt(FrSqrt2, 2)) /\ Near(C(1, 1), FrNeg(FrOne))
Circle == /\ Near(FrAdd(FrSq(S(p, q)), FrSq(C(p, q))), FrOne)
          /\ S(-p, q) = FrNeg(S(p, q)) \/ S(p, q).m = <<>>
          /\ Near(S(p * b + a * q, q * b), FrAdd(FrMul(S(p, q), C(a, b)), FrMul(C(p, q), S(a, b))))
          /\ Near(S(2 * p, q), FrMulInt(FrMul(S(p, q), C(p, q)), 2))
\* the derivative: S(x + e) - S(x - e) = 2 sin(pi e) C(x), with sin(pi e) ~ pi e
Slope == FrNear(FrSub(S(1000 * p + q, 1000 * q), S(1000 * p - q, 1000 * q)), FrMul(FrMul(FrRat(2, 1000), FrPi), C(p, q)), <<0, 0, 0, 200>>)
Exponential == LET e == FrExpNeg(X) IN
  /\ Near(FrMul(e, FrExpNeg(FrRat(a, b))), FrExpNeg(FrAdd(X, FrRat(a, b))))
  /\ FrLeq(FrSub(FrOne, X), e) /\ (p > 0 => FrLeq(FrMul(e, FrAdd(FrOne, X)), FrOne))
\* Value of a shape (division is not defined on FixedReal): v lies on it.
On(v, sh) == OnShape(v, sh, Eps)
Pulses ==
  /\ On(FrOne, RcShape(0, 1, a, b)) /\ (p > 0 => On(FrZero, RcShape(p, 1, a, b)) \/ 2 * a * p = b)   \* Nyquist zeros
  /\ (2 * a * p = b => On(FrZero, RcShape(p, 1, a, b)))
  /\ RcShape(p, q, a, b)[1].s # 0
  /\ (a = 0 /\ p > 0 => \A v \in {FrRat(1, 8)} : On(v, RcShape(p, q, a, b)) <=> On(v, RrcShape(p, q, a, b)))  \* both are sinc
  /\ Near(FrMul(RrcShape(p, q, a, b)[1], RrcShape(-p, q, a, b)[2]), FrMul(RrcShape(-p, q, a, b)[1], RrcShape(p, q, a, b)[2]))  \* even
  /\ Near(FrMul(RcShape(p, q, a, b)[1], RcShape(-p, q, a, b)[2]), FrMul(RcShape(-p, q, a, b)[1], RcShape(p, q, a, b)[2]))
\* The limits at the removable singularities agree with the values next to them.
Limits == LET sh(k, d) == IF k = 0 THEN RrcShape(b, 4 * a, a, b) ELSE RrcShape(500 * b + d * a, 2000 * a, a, b)
              rc(k, d) == IF k = 0 THEN RcShape(b, 2 * a, a, b) ELSE RcShape(500 * b + d * a, 1000 * a, a, b)
          IN a > 0 => /\ FrNear(FrMul(sh(0, 0)[1], sh(1, 1)[2]), FrMul(sh(1, 1)[1], sh(0, 0)[2]), FrMul(FrRat(1, 200), FrAbs(sh(1, 1)[2])).m)
                      /\ FrNear(FrMul(rc(0, 0)[1], rc(1, 1)[2]), FrMul(rc(1, 1)[1], rc(0, 0)[2]), FrMul(FrRat(1, 200), FrAbs(rc(1, 1)[2])).m)
=============================================================================
