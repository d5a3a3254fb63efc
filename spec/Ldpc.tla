-------------------------------- MODULE Ldpc --------------------------------
(***************************************************************************)
(* Tanner graphs and flooding belief propagation.                          *)
(*                                                                         *)
(* A graph is [n, rows, cols]: rows[c] is the sequence of variable nodes   *)
(* of check c, cols[v] the sequence of <<check, position in its row>>.     *)
(* Messages live on edges: msg[c][i].  One BP iteration is one step; a     *)
(* block stops at the first iteration whose hard decision is a codeword.   *)
(* LLR > 0 or = 0 decides bit 0, LLR < 0 decides bit 1.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigNat

GraphOK(gr) ==
  /\ Len(gr.cols) = gr.n
  /\ \A gv \in 1..gr.n : \A gj \in 1..Len(gr.cols[gv]) :
       LET ge == gr.cols[gv][gj] IN gr.rows[ge[1]][ge[2]] = gv /\ (gj > 1 => gr.cols[gv][gj - 1][1] < ge[1])

RECURSIVE ParityOf(_, _, _)
ParityOf(gw, grow, gi) == IF gi = 0 THEN 0 ELSE (gw[grow[gi]] + ParityOf(gw, grow, gi - 1)) % 2
IsCodeword(gr, gw) == \A gc \in 1..Len(gr.rows) : ParityOf(gw, gr.rows[gc], Len(gr.rows[gc])) = 0

---------------------------------------------------------------------------
(* Min-sum, exact integers. *)
Clip(gx, gm) == IF gx > gm THEN gm ELSE IF gx < -gm THEN -gm ELSE gx
Hard(gx) == IF gx < 0 THEN 1 ELSE 0
Sgn(gx) == IF gx < 0 THEN -1 ELSE IF gx > 0 THEN 1 ELSE 0
AbsV(gx) == IF gx < 0 THEN -gx ELSE gx

RECURSIVE MinOthers(_, _, _, _)
MinOthers(gm, gskip, gi, gbest) ==
  IF gi = 0 THEN gbest
  ELSE MinOthers(gm, gskip, gi - 1, IF gi # gskip /\ (gbest < 0 \/ AbsV(gm[gi]) < gbest) THEN AbsV(gm[gi]) ELSE gbest)
RECURSIVE SignOthers(_, _, _)
SignOthers(gm, gskip, gi) ==
  IF gi = 0 THEN 1 ELSE (IF gi = gskip THEN 1 ELSE Sgn(gm[gi])) * SignOthers(gm, gskip, gi - 1)

MsaCheck(gr, gmsg) ==
  TLCEval([gc \in 1..Len(gr.rows) |-> TLCEval([gi \in 1..Len(gr.rows[gc]) |->
     SignOthers(gmsg[gc], gi, Len(gmsg[gc])) * MinOthers(gmsg[gc], gi, Len(gmsg[gc]), -1)])])

RECURSIVE SumCol(_, _, _)
SumCol(gout, gcol, gj) == IF gj = 0 THEN 0 ELSE gout[gcol[gj][1]][gcol[gj][2]] + SumCol(gout, gcol, gj - 1)
MsaTotal(gr, gllr, gout) == TLCEval([gv \in 1..gr.n |-> gllr[gv] + SumCol(gout, gr.cols[gv], Len(gr.cols[gv]))])
MsaVar(gr, gtot, gout) ==
  TLCEval([gc \in 1..Len(gr.rows) |-> TLCEval([gi \in 1..Len(gr.rows[gc]) |-> gtot[gr.rows[gc][gi]] - gout[gc][gi]])])
MsaStart(gr, gllr) ==
  TLCEval([gc \in 1..Len(gr.rows) |-> TLCEval([gi \in 1..Len(gr.rows[gc]) |-> gllr[gr.rows[gc][gi]]])])

---------------------------------------------------------------------------
(* Sum-product, exact odds <<weight of bit 0, weight of bit 1>>.           *)
Pow2Odds(gx) == IF gx >= 0 THEN <<BnMulPow2(<<1>>, gx), <<1>>>> ELSE << <<1>>, BnMulPow2(<<1>>, -gx)>>

\* product over the other edges of a+b and of |a-b|, with the sign of the latter
RECURSIVE SpaProd(_, _, _)
SpaProd(gm, gskip, gi) ==
  IF gi = 0 THEN [p |-> <<1>>, m |-> <<1>>, neg |-> FALSE]
  ELSE LET gq == SpaProd(gm, gskip, gi - 1)
       IN IF gi = gskip THEN gq
          ELSE [p |-> BnMul(gq.p, BnAdd(gm[gi][1], gm[gi][2])),
                m |-> BnMul(gq.m, BnDiff(gm[gi][1], gm[gi][2])),
                neg |-> gq.neg # (BnCmp(gm[gi][1], gm[gi][2]) < 0)]
SpaOut(gm, gi) ==
  LET gq == SpaProd(gm, gi, Len(gm))
      hi == BnAdd(gq.p, gq.m)
      lo == BnSub(gq.p, gq.m)
  IN IF gq.neg THEN <<lo, hi>> ELSE <<hi, lo>>
SpaCheck(gr, gmsg) ==
  TLCEval([gc \in 1..Len(gr.rows) |-> TLCEval([gi \in 1..Len(gr.rows[gc]) |-> TLCEval(SpaOut(gmsg[gc], gi))])])

RECURSIVE ProdCol(_, _, _, _)
ProdCol(gout, gcol, gj, gskip) ==
  IF gj = 0 THEN <<<<1>>, <<1>>>>
  ELSE LET gq == ProdCol(gout, gcol, gj - 1, gskip)
           gx == gout[gcol[gj][1]][gcol[gj][2]]
       IN IF gcol[gj][1] = gskip THEN gq ELSE <<BnMul(gq[1], gx[1]), BnMul(gq[2], gx[2])>>
SpaNode(gr, gllr, gout, gv, gskip) ==
  LET gq == ProdCol(gout, gr.cols[gv], Len(gr.cols[gv]), gskip)
      gx == Pow2Odds(gllr[gv])
  IN TLCEval(<<BnMul(gq[1], gx[1]), BnMul(gq[2], gx[2])>>)
SpaTotal(gr, gllr, gout) == TLCEval([gv \in 1..gr.n |-> SpaNode(gr, gllr, gout, gv, 0)])
SpaVar(gr, gllr, gout) ==
  TLCEval([gc \in 1..Len(gr.rows) |-> TLCEval([gi \in 1..Len(gr.rows[gc]) |-> SpaNode(gr, gllr, gout, gr.rows[gc][gi], gc)])])
SpaStart(gr, gllr) ==
  TLCEval([gc \in 1..Len(gr.rows) |-> TLCEval([gi \in 1..Len(gr.rows[gc]) |-> TLCEval(Pow2Odds(gllr[gr.rows[gc][gi]]))])])
SpaHard(gx) == IF BnCmp(gx[1], gx[2]) < 0 THEN 1 ELSE 0
\* too close to call in floating point
SpaClose(gx) == BnCmp(BnMul(BnDiff(gx[1], gx[2]), BnGiga), gx[1]) < 0
=============================================================================
