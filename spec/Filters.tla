------------------------------- MODULE Filters ------------------------------
(***************************************************************************)
(* Pulse shapes.  Sample i = 0, 1, ... of N stands at time (i - N/2) / Fs; *)
(* x = p / q below is that time in symbol periods (Gaussian: in seconds),  *)
(* the roll-off is a / b.  Values are cross-multiplied: a shape is the     *)
(* pair <<numerator, denominator>>.                                        *)
(***************************************************************************)
EXTENDS FixedReal

FrSq(x) == FrMul(x, x)

\* The raised cosine is sinc(x) cos(pi alpha x) / (1 - (2 alpha x)^2); at |2 alpha x| = 1 pi/4 sinc(x).
RcShape(p, q, a, b) ==
  IF p = 0 THEN <<FrOne, FrOne>>
  ELSE IF 2 * a * FrAbsInt(p) = b * q THEN <<FrSinPi(p, q), FrRat(4 * p, q)>>
  ELSE <<FrMul(FrSinPi(p, q), FrCosPi(a * p, b * q)),
         FrMul(FrMul(FrPi, FrRat(p, q)), FrSub(FrOne, FrSq(FrRat(2 * a * p, b * q))))>>

\* (sin(pi x (1 - alpha)) + 4 alpha x cos(pi x (1 + alpha))) / (pi x (1 - (4 alpha x)^2)) and its limits.
RrcShape(p, q, a, b) ==
  IF p = 0 THEN <<FrAdd(FrMul(FrPi, FrRat(b - a, b)), FrRat(4 * a, b)), FrPi>>
  ELSE IF 4 * a * FrAbsInt(p) = b * q
  THEN <<FrMul(FrRat(a, b), FrAdd(FrMul(FrAdd(FrPi, FrRat(2, 1)), FrSinPi(b, 4 * a)),
                                  FrMul(FrSub(FrPi, FrRat(2, 1)), FrCosPi(b, 4 * a)))),
         FrMul(FrSqrt2, FrPi)>>
  ELSE <<FrAdd(FrSinPi(p * (b - a), q * b), FrMul(FrRat(4 * a * p, b * q), FrCosPi(p * (a + b), q * b))),
         FrMul(FrMul(FrPi, FrRat(p, q)), FrSub(FrOne, FrSq(FrRat(4 * a * p, b * q))))>>

\* sqrt(pi) / alpha exp(-(pi t / alpha)^2)
GaussShape(p, q, a, b) == <<FrMul(FrSqrtPi, FrExpNeg(FrSq(FrMul(FrPi, FrRat(p * b, q * a))))), FrRat(a, b)>>

\* h is within tol (relative to the peak, about one) of the shape.
OnShape(h, shape, tol) ==
  LET d == FrAbs(shape[2]) IN FrNear(FrMul(h, shape[2]), shape[1], BnAdd(FrMul([s |-> 1, m |-> tol], d).m, <<0, 1>>))
=============================================================================
