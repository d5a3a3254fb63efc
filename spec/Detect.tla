------------------------------- MODULE Detect -------------------------------
(***************************************************************************)
(* Detection of symbol vectors x in y = Hx + noise over Gaussian integers. *)
(* A vector is a sequence of labels 0..m-1 (constellation indices).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CMul(qa, qb) == <<qa[1] * qb[1] - qa[2] * qb[2], qa[1] * qb[2] + qa[2] * qb[1]>>
CAdd(qa, qb) == <<qa[1] + qb[1], qa[2] + qb[2]>>
CSub(qa, qb) == <<qa[1] - qb[1], qa[2] - qb[2]>>
CAbs2(qa) == qa[1] * qa[1] + qa[2] * qa[2]

RECURSIVE RowDot(_, _, _, _)         \* sum over columns qj..Len of row[qj] * point of the label
RowDot(qrow, qcon, qx, qj) ==
  IF qj > Len(qrow) THEN <<0, 0>> ELSE CAdd(CMul(qrow[qj], qcon[qx[qj] + 1]), RowDot(qrow, qcon, qx, qj + 1))
RECURSIVE DistFrom(_, _, _, _, _)
DistFrom(qy, qh, qcon, qx, qi) ==
  IF qi = 0 THEN 0 ELSE CAbs2(CSub(qy[qi], RowDot(qh[qi], qcon, qx, 1))) + DistFrom(qy, qh, qcon, qx, qi - 1)
DistOf(qy, qh, qcon, qx) == DistFrom(qy, qh, qcon, qx, Len(qy))

\* Vector number qk of the m^n vectors.
VecOf(qk, qm, qn) == [qi \in 1..qn |-> (qk \div qm^(qn - qi)) % qm]
AllDists(qy, qh, qcon, qn) ==
  TLCEval([qk \in 1..(Len(qcon)^qn) |-> DistOf(qy, qh, qcon, VecOf(qk - 1, Len(qcon), qn))])
RECURSIVE MinSeq(_, _, _)
MinSeq(qs, qi, qbest) == IF qi > Len(qs) THEN qbest ELSE MinSeq(qs, qi + 1, IF qs[qi] < qbest THEN qs[qi] ELSE qbest)

---------------------------------------------------------------------------
(* K-best tree search on a triangular system, one tree level at a time.    *)
(* Metric of level k: |z_k - c sum_{j>=k} R[k][j] x_j|^2.  A survivor is   *)
(* [x |-> labels of levels k..n, d |-> metric].                            *)
LevelCost(qz, qr, qc, qcon, qk, qx) ==      \* qx: labels of levels qk..n
  LET qn == Len(qr)
      qfull == [qi \in 1..qn |-> IF qi < qk THEN 0 ELSE qx[qi - qk + 1]]
      qs == RowDot(qr[qk], qcon, qfull, qk)
  IN CAbs2(CSub(qz[qk], <<qc * qs[1], qc * qs[2]>>))
Children(qz, qr, qc, qcon, qk, qsurv) ==
  TLCEval([qi \in 1..(Len(qsurv) * Len(qcon)) |->
    LET qp == qsurv[((qi - 1) \div Len(qcon)) + 1]
        qx == <<(qi - 1) % Len(qcon)>> \o qp.x
    IN [x |-> qx, d |-> qp.d + LevelCost(qz, qr, qc, qcon, qk, qx)]])
\* The K best children: rank of a child = number of strictly better ones.
Rank(qch, qi) == Cardinality({qj \in 1..Len(qch) : qch[qj].d < qch[qi].d})
Kept(qch, qK) == SelectSeq(qch, LAMBDA qs : Cardinality({qj \in 1..Len(qch) : qch[qj].d < qs.d}) < qK)
\* More candidates than K tie at the boundary: which ones survive is not determined.
Ambiguous(qch, qK) == Len(Kept(qch, qK)) > qK
=============================================================================
