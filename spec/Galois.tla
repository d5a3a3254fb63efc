------------------------------- MODULE Galois -------------------------------
(***************************************************************************)
(* Binary polynomials and the fields GF(2^m).  Small polynomials are       *)
(* integers (bit i is the coefficient of x^i), large ones ascending        *)
(* sequences of coefficients without trailing zeros.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise

PrimPoly == <<3, 7, 11, 19, 37, 67, 137, 285, 529, 1033, 2053, 4179, 8219, 17475, 32771, 69643>>

RECURSIVE Deg(_)
Deg(gx) == IF gx <= 1 THEN 0 ELSE 1 + Deg(gx \div 2)

Xtime(m, ga) == LET gd == 2 * ga IN IF gd >= 2^m THEN gd ^^ PrimPoly[m] ELSE gd

RECURSIVE MulFrom(_, _, _, _)
MulFrom(m, ga, gb, gacc) ==
  IF gb = 0 THEN gacc ELSE MulFrom(m, Xtime(m, ga), gb \div 2, IF gb % 2 = 1 THEN gacc ^^ ga ELSE gacc)
FMul(m, ga, gb) == MulFrom(m, ga, gb, 0)

RECURSIVE FPow(_, _, _)
FPow(m, ga, gn) ==
  IF gn = 0 THEN 1
  ELSE LET gh == FPow(m, FMul(m, ga, ga), gn \div 2) IN IF gn % 2 = 1 THEN FMul(m, gh, ga) ELSE gh

Alpha(m) == IF m = 1 THEN 1 ELSE 2      \* x modulo the primitive polynomial

Primes == {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 127, 151, 257, 8191}
PrimeDivisors(gn) == {gp \in Primes : gn % gp = 0}
\* Multiplicative order by its definition, tested at the maximal proper divisors.
IsOrder(m, ga, go) ==
  /\ go >= 1 /\ (2^m - 1) % go = 0 /\ FPow(m, ga, go) = 1
  /\ \A gp \in PrimeDivisors(go) : FPow(m, ga, go \div gp) # 1

RECURSIVE OrbitFrom(_, _, _)
OrbitFrom(m, ga, gacc) == LET gs == FMul(m, ga, ga) IN IF gs \in gacc THEN gacc ELSE OrbitFrom(m, gs, gacc \cup {gs})
Orbit(m, ga) == OrbitFrom(m, ga, {ga})

\* Value at ga of the binary polynomial gp (an integer).
RECURSIVE EvalAt(_, _, _)
EvalAt(m, gp, ga) == IF gp = 0 THEN 0 ELSE FMul(m, EvalAt(m, gp \div 2, ga), ga) ^^ (gp % 2)

\* The minimal polynomial of ga is the binary polynomial of degree |orbit| having it as a root.
IsMinPoly(m, gp, ga) == gp >= 2 /\ Deg(gp) = Cardinality(Orbit(m, ga)) /\ EvalAt(m, gp, ga) = 0

---------------------------------------------------------------------------
(* Polynomials as ascending sequences of coefficients. *)
RECURSIVE PTrim(_)
PTrim(ps) == IF ps # <<>> /\ ps[Len(ps)] = 0 THEN PTrim(SubSeq(ps, 1, Len(ps) - 1)) ELSE ps
PDeg(ps) == Len(ps) - 1
PCoef(ps, gi) == IF gi >= 1 /\ gi <= Len(ps) THEN ps[gi] ELSE 0
PXorShift(ps, pd, gk) == PTrim([gi \in 1..Len(ps) |-> (ps[gi] + PCoef(pd, gi - gk)) % 2])
RECURSIVE PRem(_, _)
PRem(ps, pd) == IF Len(ps) < Len(pd) THEN ps ELSE PRem(TLCEval(PXorShift(ps, pd, Len(ps) - Len(pd))), pd)
PMul(ps, pd) ==
  IF ps = <<>> \/ pd = <<>> THEN <<>>
  ELSE [gi \in 1..(Len(ps) + Len(pd) - 1) |->
          Cardinality({gj \in 1..Len(ps) : ps[gj] = 1 /\ PCoef(pd, gi - gj + 1) = 1}) % 2]
XnPlus1(gn) == [gi \in 1..(gn + 1) |-> IF gi = 1 \/ gi = gn + 1 THEN 1 ELSE 0]

---------------------------------------------------------------------------
(* Degrees of the irreducible factors of x^n+1, n odd: sizes of the orbits *)
(* of multiplication by 2 modulo n.  x^n+1 has no repeated factor, so the  *)
(* divisors of degree d are the sets of factors with total degree d.       *)
RECURSIVE DoubleOrbit(_, _, _)
DoubleOrbit(gn, gi, gacc) == LET gs == (2 * gi) % gn IN IF gs \in gacc THEN gacc ELSE DoubleOrbit(gn, gs, gacc \cup {gs})
FactorDegrees(gn) ==
  LET leads == SelectSeq([gi \in 1..gn |-> gi - 1], LAMBDA gi : \A gj \in DoubleOrbit(gn, gi, {gi}) : gi <= gj)
  IN [gi \in 1..Len(leads) |-> Cardinality(DoubleOrbit(gn, leads[gi], {leads[gi]}))]
RECURSIVE SubsetSums(_, _, _)
SubsetSums(gdegs, gi, gcnt) ==     \* gcnt[t+1]: number of subsets of the first gi degrees with sum t
  IF gi > Len(gdegs) THEN gcnt
  ELSE SubsetSums(gdegs, gi + 1,
         TLCEval([gt \in 1..Len(gcnt) |-> gcnt[gt] + (IF gt > gdegs[gi] THEN gcnt[gt - gdegs[gi]] ELSE 0)]))
NumDivisors(gn, gd) == SubsetSums(FactorDegrees(gn), 1, [gt \in 1..(gn + 1) |-> IF gt = 1 THEN 1 ELSE 0])[gd + 1]
=============================================================================
