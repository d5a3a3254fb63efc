------------------------------ MODULE Transport -----------------------------
(***************************************************************************)
(* What a MIMO link does to bits: the encoder repeats and permutes them,   *)
(* the modulator groups them into labels (most significant bit first), the *)
(* channel takes nt symbols per use, the receiver handles one use at a     *)
(* time and the decoder gets what the uses brought, in order.              *)
(***************************************************************************)
EXTENDS Modem

\* Coded bit k carries message bit tsrc[k]; a description of the code by the source of every coded bit.
EncodeT(tmsg, tsrc) == [tk \in 1..Len(tsrc) |-> tmsg[tsrc[tk]]]
LabelsOf(tcoded, tnb) == [tk \in 1..(Len(tcoded) \div tnb) |-> ToLabel(tcoded, (tk - 1) * tnb + 1, tk * tnb)]
\* Symbols of channel use tu (1, 2, ...) and the bits they carry.
UseSymbols(tlab, tnt, tu) == SubSeq(tlab, (tu - 1) * tnt + 1, tu * tnt)
UseBits(tcoded, tnt, tnb, tu) == SubSeq(tcoded, (tu - 1) * tnt * tnb + 1, tu * tnt * tnb)
\* Every coded copy of a message bit agrees.
Consistent(tbits, tsrc) == \A ta, tb \in 1..Len(tsrc) : tsrc[ta] = tsrc[tb] => tbits[ta] = tbits[tb]
=============================================================================
