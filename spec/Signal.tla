------------------------------- MODULE Signal -------------------------------
(***************************************************************************)
(* Sequences, frequency offset, bit utilities and OFDM, on exact numbers:  *)
(* bits, phases as multiples of a fraction of the circle, Gaussian         *)
(* integers <<re, im>>.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

---------------------------------------------------------------------------
(* The linear feedback shift register: register r[1..n], output r[n], the  *)
(* parity of the masked register enters at r[1].                           *)
LfsrOut(gr) == gr[Len(gr)]
LfsrIn(gr, gmask) == FoldLeft(LAMBDA ga, gi : (ga + gr[gi] * gmask[gi]) % 2, 0, [gi \in 1..Len(gr) |-> gi])
LfsrNext(gr, gmask) == <<LfsrIn(gr, gmask)>> \o SubSeq(gr, 1, Len(gr) - 1)

---------------------------------------------------------------------------
(* Zadoff-Chu: sample n has the phase -pi/L * index, index modulo 2 L.     *)
ZcIndex(gu, gl, gq, gn) == (((gu * gn) % (2 * gl)) * ((gn + (gl % 2) + 2 * gq) % (2 * gl))) % (2 * gl)
RECURSIVE Gcd(_, _)
Gcd(ga, gb) == IF gb = 0 THEN ga ELSE Gcd(gb, ga % gb)
ZcValid(gu, gl) == gu > 0 /\ gu < gl /\ Gcd(gl, gu) = 1

\* Rotation of sample k for an offset of p/n of the sampling rate, in 1/n of the circle.
OffsetIndex(gp, gn, gk) == ((gp % gn) * (gk % gn)) % gn

---------------------------------------------------------------------------
(* Natural numbers as limbs of 15 bits, least significant first.           *)
LimbBit(glimbs, gi) == LET gj == (gi \div 15) + 1        \* bit of weight 2^gi
                       IN IF gj > Len(glimbs) THEN 0 ELSE (glimbs[gj] \div 2^(gi % 15)) % 2
BitsOf(glimbs, gw) == [gi \in 1..gw |-> LimbBit(glimbs, gw - gi)]
LimbsFit(glimbs, gw) == \A gi \in gw..(15 * Len(glimbs)) : LimbBit(glimbs, gi) = 0
LimbsOf(gbits) ==       \* most significant bit first; the number as limbs, leading zero limbs kept
  LET gw == Len(gbits)
      gn == (gw + 14) \div 15
      gb(gi) == IF gi >= gw THEN 0 ELSE gbits[gw - gi]
  IN [gj \in 1..gn |-> FoldLeft(LAMBDA ga, gt : 2 * ga + gb(15 * (gj - 1) + 14 - gt), 0, [gt \in 1..15 |-> gt - 1])]
RECURSIVE DropZeros(_)
DropZeros(gs) == IF gs # <<>> /\ gs[Len(gs)] = 0 THEN DropZeros(SubSeq(gs, 1, Len(gs) - 1)) ELSE gs

SumSeq(gs) == FoldLeft(LAMBDA ga, gx : ga + gx, 0, gs)
HammingOf(ga, gb) == SumSeq([gi \in 1..Len(ga) |-> IF ga[gi] = gb[gi] THEN 0 ELSE 1])
EuclidOf(ga, gb) == SumSeq([gi \in 1..Len(ga) |-> (ga[gi] - gb[gi]) * (ga[gi] - gb[gi])])
UpsampleOf(gx, gn, gz) == [gi \in 1..(gn * Len(gx)) |-> IF (gi - 1) % gn = 0 THEN gx[((gi - 1) \div gn) + 1] ELSE gz]
EnergyOf(gx) == SumSeq([gi \in 1..Len(gx) |-> gx[gi][1] * gx[gi][1] + gx[gi][2] * gx[gi][2]])

---------------------------------------------------------------------------
(* OFDM: carrier of bin b (0..nfft-1); data index 1..nsc, 0 when empty.    *)
CarrierOf(gb, gnfft, gnsc) ==
  LET gh == gnsc \div 2 IN
  IF gb >= 1 /\ gb <= gh THEN gh + gb
  ELSE IF gb >= gnfft - gh /\ gb < gnfft THEN gb - (gnfft - gh) + 1 ELSE 0
BinsOf(gcol, gnfft) == [gi \in 1..gnfft |-> LET gc == CarrierOf(gi - 1, gnfft, Len(gcol))
                                            IN IF gc = 0 THEN <<0, 0>> ELSE gcol[gc]]
BinOf(gi, gnfft, gnsc) == IF gi <= gnsc \div 2 THEN gnfft - (gnsc \div 2) + gi - 1 ELSE gi - (gnsc \div 2)      \* the carrier of data index gi
DataOf(gbins, gnsc) == [gi \in 1..gnsc |-> gbins[1 + BinOf(gi, Len(gbins), gnsc)]]

\* Exact inverse transform for one, two and four bins, times nfft.
QMul(ga, gk) == CASE gk % 4 = 0 -> ga [] gk % 4 = 1 -> <<-ga[2], ga[1]>>
                  [] gk % 4 = 2 -> <<-ga[1], -ga[2]>> [] OTHER -> <<ga[2], -ga[1]>>      \* ga * j^gk
GSum(gs) == FoldLeft(LAMBDA ga, gx : <<ga[1] + gx[1], ga[2] + gx[2]>>, <<0, 0>>, gs)
SmallIdft(gbins) == LET gn == Len(gbins) IN
  [gt \in 1..gn |-> GSum([gb \in 1..gn |-> QMul(gbins[gb], (4 \div gn) * (gb - 1) * (gt - 1))])]
SmallDft(gx) == LET gn == Len(gx) IN
  [gb \in 1..gn |-> GSum([gt \in 1..gn |-> QMul(gx[gt], (4 \div gn) * (4 - (gb - 1)) * (gt - 1))])]
=============================================================================
