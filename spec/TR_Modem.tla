------------------------------- MODULE TR_Modem -----------------------------
(***************************************************************************)
(* Trace specification of modems (C15, C16).  State: mdm maps every modem  *)
(* object of the trace to the constellation it holds.  Points and samples  *)
(* are in units of 1/u: exact for QAM and custom constellations (u = 4),   *)
(* rounded for PSK (u = 10000, tolerance tol on squared distances); samples*)
(* may be sc times finer.                                                  *)
(***************************************************************************)
EXTENDS Modem, FixedReal, TraceKit
VARIABLES l, fails, done, mdm
vars == <<l, fails, done, mdm>>

SetOf(s) == {s[i] : i \in 1..Len(s)}
NearI(a, b, tol) == a - b <= tol /\ b - a <= tol

\* What an object shows about itself must be what its constellation implies.
Shows(o, pts, u) ==
  LET n == Len(pts) IN
  Clause(o.pts = pts, "constellation")
  \o Clause(o.m = n, "order-attribute")
  \o Clause(IsPow2(n) /\ o.nb = Log2(n), "bits-per-symbol")
  \* es: mean energy times n u^2 (n 10^6 for PSK, whose points have unit modulus)
  \o Clause(IF u = 4 THEN o.es = SumEnergy(pts, n) ELSE NearI(o.es, n * 1000000, 2), "symbol-energy")

PskOK(e) ==
  LET n == Len(e.obs.pts) IN
     Clause(\A i \in 1..n : e.idx[i] >= 0, "not-on-unit-circle")
  \o Clause(SetOf(e.idx) = 0..(n - 1), "not-all-phases")
  \o Clause((\A i \in 1..n : e.idx[i] >= 0) => \A i, j \in 1..n : (e.idx[i] + 1) % n = e.idx[j] => Hamming(i - 1, j - 1) = 1, "neighbour-labels")
QamOK(e) ==
  LET n == Len(e.obs.pts) IN
     Clause(SetOf(e.obs.pts) = OddGrid(n, 4), "not-the-odd-grid")
  \o Clause(GrayAt(e.obs.pts, 64), "neighbour-labels")
\* a custom constellation with Gray reordering: consecutive given points get labels one bit apart
GrayOK(e) ==
  LET n == Len(e.given) IN
     Clause(SetOf(e.obs.pts) = SetOf(e.given) /\ Len(e.obs.pts) = n, "points-lost")
  \o Clause(\A i, j \in 1..n : (\E k \in 1..(n - 1) : {e.given[k], e.given[k + 1]} = {e.obs.pts[i], e.obs.pts[j]} /\ i # j)
              => Hamming(i - 1, j - 1) = 1, "neighbour-labels")

Square(n) == \E r \in 1..n : r * r = n
\* Whether the arguments are acceptable; u = 4 for exact coordinates.
Acceptable(e) == CASE e.kind = "psk" -> IsPow2(e.size)
                   [] e.kind = "qam" -> IsPow2(e.size) /\ Square(e.size)
                   [] OTHER -> IsPow2(Len(e.given))
New ==
  /\ Trace[l].ev = "new"
  /\ LET e == Trace[l] IN
     IF ~Acceptable(e)
     THEN fails' = AddFails(fails, l, Clause(e.exc = "ValueError", "invalid-constellation-accepted")) /\ mdm' = mdm
     ELSE IF Raised(e) THEN fails' = AddFails(fails, l, <<"construction-raised">>) /\ mdm' = mdm
     ELSE /\ fails' = AddFails(fails, l,
               (CASE e.kind = "psk" -> PskOK(e) [] e.kind = "qam" -> QamOK(e) [] e.kind = "gray" -> GrayOK(e)
                  [] OTHER -> Clause(e.obs.pts = e.given, "constellation"))
               \o Shows(e.obs, e.obs.pts, e.u)
               \o Clause(e.kind \in {"psk", "qam"} => Len(e.obs.pts) = e.size, "size"))
          /\ mdm' = (e.o :> e.obs.pts) @@ mdm
Set ==
  /\ Trace[l].ev = "set"
  /\ LET e == Trace[l]
         ok == IsPow2(Len(e.given))
         pts == IF ok THEN e.given ELSE mdm[e.o]
     IN /\ fails' = AddFails(fails, l,
             Clause(IF ok THEN ~Raised(e) ELSE e.exc = "ValueError", "assignment-verdict")
             \o Shows(e.obs, pts, e.u))
        /\ mdm' = [mdm EXCEPT ![e.o] = pts]

VerifyMod(e) ==
  IF Raised(e) THEN <<"modulation-raised">>
  ELSE Clause(e.out = ModulateL(mdm[e.o], e.bits), "symbols") \o Clause(e.unchanged, "arguments-modified")

Finer(pts, sc) == IF sc = 1 THEN pts ELSE [k \in 1..Len(pts) |-> <<sc * pts[k][1], sc * pts[k][2]>>]
VerifyHard(e) ==
  LET pts == TLCEval(Finer(mdm[e.o], e.sc))
      nb  == Log2(Len(pts))
  IN IF Raised(e) THEN <<"demodulation-raised">>
     ELSE Clause(Len(e.out) = nb * Len(e.y) /\ \A i \in 1..Len(e.out) : e.out[i] \in {0, 1}, "bits")
       \o Clause((Len(e.out) = nb * Len(e.y) /\ \A i \in 1..Len(e.out) : e.out[i] \in {0, 1}) =>
             \A i \in 1..Len(e.y) :
                Dist2(pts[1 + ToLabel(e.out, (i - 1) * nb + 1, i * nb)], e.y[i]) <= MinDist2(pts, e.y[i]) + e.tol, "nearest-point")
       \o Clause(e.unchanged, "arguments-modified")

\* Likelihoods are 2^(-d^2 / (16 h)) up to a common factor: exact integers when the exponents are.
Expo(pts, y, h16) == LET lo == MinDist2(pts, y) IN TLCEval([i \in 1..Len(pts) |-> (Dist2(pts[i], y) - lo) \div h16])
RECURSIVE SumLik(_, _, _, _, _, _)
SumLik(ex, top, nb, j, v, i) ==
  IF i = 0 THEN <<>>
  ELSE LET r == SumLik(ex, top, nb, j, v, i - 1)
       IN IF LabelBit(i - 1, j, nb) = v THEN BnAdd(r, BnMulPow2(<<1>>, top - ex[i])) ELSE r
RECURSIVE MaxSeq(_, _)
MaxSeq(s, i) == IF i = 1 THEN s[1] ELSE LET r == MaxSeq(s, i - 1) IN IF s[i] > r THEN s[i] ELSE r
VerifySoft(e) ==
  LET pts == mdm[e.o]
      nb  == Log2(Len(pts))
  IN IF Raised(e) THEN <<"demodulation-raised">>
     ELSE IF Len(e.out) # nb * Len(e.y) THEN <<"length">>
     ELSE Clause(\A i \in 1..Len(e.y) : LET lo == MinDist2(pts, e.y[i]) IN \A k \in 1..Len(pts) : (Dist2(pts[k], e.y[i]) - lo) % e.h16 = 0, "DRIVER-exponents")
       \o Clause(\A i \in 1..Len(e.y) :
             LET ex  == Expo(pts, e.y[i], e.h16)
                 top == TLCEval(MaxSeq(ex, Len(ex)))
             IN \A j \in 1..nb :
                  FloatNear(e.out[(i - 1) * nb + j], TLCEval(SumLik(ex, top, nb, j, 1, Len(pts))), TLCEval(SumLik(ex, top, nb, j, 0, Len(pts)))),
             "llr")
       \o Clause(e.unchanged, "arguments-modified")

(* Any samples and noise variances p/q: with m1, m0 the least squared distances (over the noise variance) to a point   *)
(* with a one and with a zero, LLR - (m0 - m1) is the logarithm of a quotient of sums of exponentials, each sum at least 1. *)
FrMin(s, sel(_)) ==
  FoldLeft(LAMBDA acc, k : IF ~sel(k) THEN acc ELSE IF acc = <<>> THEN <<s[k]>> ELSE IF FrLeq(acc[1], s[k]) THEN acc ELSE <<s[k]>>,
           <<>>, [k \in 1..Len(s) |-> k])[1]
ExpSum(s, lo, sel(_)) ==
  FoldLeft(LAMBDA acc, k : IF sel(k) THEN FrAdd(acc, FrExpNeg(FrSub(s[k], lo))) ELSE acc, FrZero, [k \in 1..Len(s) |-> k])
LlrOK(llr, s, nb, j) ==
  \E m1 \in {FrMin(s, LAMBDA k : LabelBit(k - 1, j, nb) = 1)} : \E m0 \in {FrMin(s, LAMBDA k : LabelBit(k - 1, j, nb) = 0)} :
  \E s1 \in {ExpSum(s, m1, LAMBDA k : LabelBit(k - 1, j, nb) = 1)} : \E s0 \in {ExpSum(s, m0, LAMBDA k : LabelBit(k - 1, j, nb) = 0)} :
  \E d \in {FrSub(llr, FrSub(m0, m1))} :
    LET tol == BnAdd(<<0, 0, 0, 100>>, BnDrop(BnMul(llr.m, <<0, 0, 0, 1>>), FrLimbs))      \* 10^-6 + 10^-8 |llr|
    IN IF d.s = 1 THEN FrNear(FrMul(FrExpNeg(d), s1), s0, tol) ELSE FrNear(FrMul(FrExpNeg(FrAbs(d)), s0), s1, tol)
VerifySoftReal(e) ==
  LET nb == Log2(Len(mdm[e.o])) IN
  IF Raised(e) THEN <<"demodulation-raised">>
  ELSE IF Len(e.out) # nb * Len(e.y) THEN <<"length">>
  ELSE IF Len(e.pts) # Len(mdm[e.o]) \/ \E k \in 1..Len(e.out) : e.out[k].s = 2 THEN <<"not-finite">>
  ELSE Clause(\A k \in 1..Len(e.pts) : \A c \in {1, 2} : FrNear(FrMulInt(e.pts[k][c], e.u), FrRat(mdm[e.o][k][c], 1), <<0, 0, 0, 0, 5001>>), "constellation")
    \o Clause(\A i \in 1..Len(e.y) :
         \E s \in {TLCEval([k \in 1..Len(e.pts) |->
              LET dx == FrSub(e.y[i][1], e.pts[k][1]) dy == FrSub(e.y[i][2], e.pts[k][2])
              IN FrDivInt(FrMulInt(FrAdd(FrMul(dx, dx), FrMul(dy, dy)), e.nv[2]), e.nv[1])])} :
           \A j \in 1..nb : LlrOK(e.out[(i - 1) * nb + j], s, nb, j), "llr")
    \o Clause(e.unchanged, "arguments-modified")

Use ==
  /\ Trace[l].ev \in {"mod", "hard", "soft", "softr", "badtype"}
  /\ LET e == Trace[l] IN
     fails' = AddFails(fails, l, CASE e.ev = "mod" -> VerifyMod(e) [] e.ev = "hard" -> VerifyHard(e) [] e.ev = "soft" -> VerifySoft(e)
                [] e.ev = "softr" -> VerifySoftReal(e)
                [] e.ev = "badtype" -> Clause(e.exc = "ValueError", "unknown-type-accepted"))
  /\ mdm' = mdm

TraceInit == l = Start /\ fails = <<>> /\ done = FALSE /\ mdm = <<>>
TraceNext ==
  \/ l <= NTrace /\ done' = done /\ l' = l + 1 /\ (New \/ Set \/ Use)
  \/ l > NTrace /\ ~done /\ done' = TRUE /\ Verdict(fails) /\ UNCHANGED <<l, fails, mdm>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
