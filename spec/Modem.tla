-------------------------------- MODULE Modem -------------------------------
(***************************************************************************)
(* Constellations: a sequence of points <<x, y>> in integer units; the     *)
(* point of label v is pts[v + 1], labels are read most significant first. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Log2(_)
Log2(qn) == IF qn <= 1 THEN 0 ELSE 1 + Log2(qn \div 2)
IsPow2(qn) == qn >= 1 /\ 2^Log2(qn) = qn

RECURSIVE ToLabel(_, _, _)     \* bits qa..qb of a sequence, most significant first
ToLabel(qbits, qa, qb) == IF qb < qa THEN 0 ELSE 2 * ToLabel(qbits, qa, qb - 1) + qbits[qb]
LabelBit(qv, qi, qnb) == (qv \div 2^(qnb - qi)) % 2       \* i-th bit of the label, 1..nb
ToBits(qv, qnb) == [qi \in 1..qnb |-> LabelBit(qv, qi, qnb)]
RECURSIVE Ones(_)
Ones(qv) == IF qv = 0 THEN 0 ELSE (qv % 2) + Ones(qv \div 2)
RECURSIVE XorN(_, _)
XorN(qa, qb) == IF qa = 0 THEN qb ELSE IF qb = 0 THEN qa ELSE ((qa + qb) % 2) + 2 * XorN(qa \div 2, qb \div 2)
Hamming(qa, qb) == Ones(XorN(qa, qb))

Dist2(qp, qq) == (qp[1] - qq[1]) * (qp[1] - qq[1]) + (qp[2] - qq[2]) * (qp[2] - qq[2])
RECURSIVE MinDistFrom(_, _, _, _)
MinDistFrom(qpts, qy, qi, qbest) ==
  IF qi > Len(qpts) THEN qbest
  ELSE MinDistFrom(qpts, qy, qi + 1, LET qd == Dist2(qpts[qi], qy) IN IF qd < qbest THEN qd ELSE qbest)
MinDist2(qpts, qy) == MinDistFrom(qpts, qy, 2, Dist2(qpts[1], qy))
RECURSIVE SumEnergy(_, _)
SumEnergy(qpts, qi) == IF qi = 0 THEN 0 ELSE Dist2(qpts[qi], <<0, 0>>) + SumEnergy(qpts, qi - 1)

ModulateL(qpts, qbits) ==
  LET qnb == Log2(Len(qpts)) IN
  [qi \in 1..(Len(qbits) \div qnb) |-> qpts[1 + ToLabel(qbits, (qi - 1) * qnb + 1, qi * qnb)]]

\* The odd-integer grid of a square QAM, in units of 1/u, and its nearest neighbours.
OddGrid(qm, qu) == LET qr == 2^(Log2(qm) \div 2)
                       qc == {qu * (2 * qk - qr + 1) : qk \in 0..(qr - 1)} IN qc \X qc
GrayAt(qpts, qd2) == \A qi, qj \in 1..Len(qpts) : Dist2(qpts[qi], qpts[qj]) = qd2 => Hamming(qi - 1, qj - 1) = 1
=============================================================================
