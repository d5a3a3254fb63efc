------------------------------ MODULE Channel -------------------------------
(***************************************************************************)
(* Configuration of a flat fading channel as a state machine.  All numbers *)
(* are exact: the mean is an integer (Gaussian) matrix times sqrt(sn/sd),  *)
(* the correlation matrices are Gaussian integer matrices over a common    *)
(* denominator, the noise variance parameter (noise_std^2) is a quotient.  *)
(* A SISO channel is the 1 x 1 case: rt is its NLOS variance and rr is 1.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

GMul(gx, gy) == <<gx[1] * gy[1] - gx[2] * gy[2], gx[1] * gy[2] + gx[2] * gy[1]>>
GNorm(gx) == gx[1] * gx[1] + gx[2] * gx[2]
GConj(gx) == <<gx[1], -gx[2]>>
RECURSIVE GPow(_, _)
GPow(gx, ge) == IF ge = 0 THEN <<1, 0>> ELSE GMul(gx, GPow(gx, ge - 1))
RECURSIVE IPow(_, _)
IPow(gb, ge) == IF ge = 0 THEN 1 ELSE gb * IPow(gb, ge - 1)
GScale(gx, gk) == <<gx[1] * gk, gx[2] * gk>>

GZeros(gr, gc) == [gi \in 1..gr |-> [gj \in 1..gc |-> <<0, 0>>]]
GIdent(gr, gk) == [gi \in 1..gr |-> [gj \in 1..gr |-> IF gi = gj THEN <<gk, 0>> ELSE <<0, 0>>]]

RECURSIVE GRowSum(_, _)
GRowSum(gr, gi) == IF gi = 0 THEN 0 ELSE GNorm(gr[gi]) + GRowSum(gr, gi - 1)
RECURSIVE GMatSum(_, _)
GMatSum(gm, gi) == IF gi = 0 THEN 0 ELSE GRowSum(gm[gi], Len(gm[gi])) + GMatSum(gm, gi - 1)
SumSq(gm) == GMatSum(gm, Len(gm))
RECURSIVE GTrace(_, _)
GTrace(gm, gi) == IF gi = 0 THEN 0 ELSE gm[gi][gi][1] + GTrace(gm, gi - 1)

\* Powers of a unit t = (tr + i ti)/tc and of 2^-b: entry (i, j) is t^(j-i) 2^(-b|j-i|) over tc^(n-1) 2^(b(n-1)), times gk.
ExpoDen(gt, gn, gb) == IPow(gt[3], gn - 1) * IPow(2, gb * (gn - 1))
ExpoMat(gt, gn, gb, gk) ==
  [gi \in 1..gn |-> [gj \in 1..gn |->
     LET gd == IF gj >= gi THEN gj - gi ELSE gi - gj
         gp == GPow(<<gt[1], IF gj >= gi THEN gt[2] ELSE -gt[2]>>, gd)
     IN GScale(gp, gk * IPow(gt[3], gn - 1 - gd) * IPow(2, gb * (gn - 1 - gd)))]]

UnitOK(gt) == GNorm(gt) = gt[3] * gt[3]

(* The mean power per channel use is the number of antenna pairs.          *)
LosDen(gc) == gc.sd
Power(gf, gntx, gnrx) ==      \* difference to the normalised power, times sd rtd rrd
  SumSq(gf.base) * gf.sn * gf.rtd * gf.rrd + GTrace(gf.rt, gntx) * GTrace(gf.rr, gnrx) * gf.sd
    - gntx * gnrx * gf.sd * gf.rtd * gf.rrd

Fading(gbase, gsn, gsd, gcplx, grt, grtd, grr, grrd) ==
  [base |-> gbase, sn |-> gsn, sd |-> gsd, cplx |-> gcplx, rt |-> grt, rtd |-> grtd, rr |-> grr, rrd |-> grrd]

\* The configuration with new fading parameters; everything else stays.
WithFading(gc, gf) ==
  [gc EXCEPT !.base = gf.base, !.sn = gf.sn, !.sd = gf.sd, !.cplx = gf.cplx,
             !.rt = gf.rt, !.rtd = gf.rtd, !.rr = gf.rr, !.rrd = gf.rrd]

Rayleigh(gntx, gnrx, gcplx) == Fading(GZeros(gnrx, gntx), 1, 1, gcplx, GIdent(gntx, 1), 1, GIdent(gnrx, 1), 1)
NoFading(gcplx) == Fading(<<<<<<1, 0>>>>>>, 1, 1, gcplx, <<<<<<0, 0>>>>>>, 1, <<<<<<1, 0>>>>>>, 1)

InitCfg(gsiso, gntx, gnrx) ==
  LET gf == IF gsiso THEN NoFading(FALSE) ELSE Rayleigh(gntx, gnrx, FALSE)
  IN [siso |-> gsiso, ntx |-> gntx, nrx |-> gnrx, nv |-> <<>>] @@ gf

(***************************************************************************)
(* Calls.  Step gives the configuration after a call and the exception it  *)
(* raises ("" when it is accepted); a refused call changes nothing.        *)
(*  setf     fading parameters given directly                              *)
(*  uray     uncorrelated Rayleigh (of the given type)                     *)
(*  eray     exponentially correlated Rayleigh                             *)
(*  urice    uncorrelated Rician, the mean scaled to k-factor kn/kd        *)
(*  erice    exponentially correlated Rician                               *)
(*  snr      SNR sp/sq (linear or in dB), rate rp/rq, symbol energy ep/eq  *)
(*  std      noise standard deviation p/q                                  *)
(***************************************************************************)
RiceScale(gop, gntx, gnrx) == <<gop.kn * gntx * gnrx, (gop.kn + gop.kd) * SumSq(gop.base)>>

CanApply(gc, gop) ==
  CASE gop.op = "setf"  -> Power(gop.f, gc.ntx, gc.nrx) = 0 /\ (gc.siso => gop.f.rt[1][1][1] >= 0)
    [] gop.op = "eray"  -> UnitOK(gop.t) /\ UnitOK(gop.r) /\ gop.bt >= 0 /\ gop.br >= 0
    [] gop.op = "urice" -> SumSq(gop.base) > 0
    [] gop.op = "erice" -> UnitOK(gop.t) /\ UnitOK(gop.r) /\ gop.bt >= 0 /\ gop.br >= 0 /\ SumSq(gop.base) > 0
    [] OTHER -> TRUE

Apply(gc, gop) ==
  CASE gop.op = "setf"  -> WithFading(gc, gop.f)
    [] gop.op = "uray"  -> WithFading(gc, Rayleigh(gc.ntx, gc.nrx, gop.cplx))
    [] gop.op = "eray"  -> WithFading(gc, Fading(GZeros(gc.nrx, gc.ntx), 1, 1, TRUE,
                              ExpoMat(gop.t, gc.ntx, gop.bt, 1), ExpoDen(gop.t, gc.ntx, gop.bt),
                              ExpoMat(gop.r, gc.nrx, gop.br, 1), ExpoDen(gop.r, gc.nrx, gop.br)))
    [] gop.op = "urice" -> LET gs == RiceScale(gop, gc.ntx, gc.nrx)
                           IN WithFading(gc, Fading(gop.base, gs[1], gs[2], gop.cplx,
                                GIdent(gc.ntx, gop.kd), gop.kn + gop.kd, GIdent(gc.nrx, 1), 1))
    [] gop.op = "erice" -> LET gs == RiceScale(gop, gc.ntx, gc.nrx)
                           IN WithFading(gc, Fading(gop.base, gs[1], gs[2], TRUE,
                                ExpoMat(gop.t, gc.ntx, gop.bt, gop.kd), ExpoDen(gop.t, gc.ntx, gop.bt) * (gop.kn + gop.kd),
                                ExpoMat(gop.r, gc.nrx, gop.br, 1), ExpoDen(gop.r, gc.nrx, gop.br)))
    [] gop.op = "snr"   -> [gc EXCEPT !.nv = <<(IF gc.cplx THEN 2 ELSE 1) * gc.ntx * gop.ep * gop.rq * gop.sq, gop.eq * gop.rp * gop.sp>>]
    [] gop.op = "std"   -> [gc EXCEPT !.nv = <<gop.p * gop.p, gop.q * gop.q>>]

Step(gc, gop) == IF CanApply(gc, gop) THEN [cfg |-> Apply(gc, gop), exc |-> ""] ELSE [cfg |-> gc, exc |-> "ValueError"]

\* A message: refused before anything happens when it is complex on a real channel or the noise is not set.
PropExc(gc, gcplx) == IF gcplx /\ ~gc.cplx THEN {"TypeError"} \cup (IF gc.nv = <<>> THEN {"AssertionError"} ELSE {})
                      ELSE IF gc.nv = <<>> THEN {"AssertionError"} ELSE {""}

(* Power ratio of the line of sight and the rest, <<los, nlos>>.            *)
KFactor(gc) == <<SumSq(gc.base) * gc.sn * gc.rtd * gc.rrd, GTrace(gc.rt, gc.ntx) * GTrace(gc.rr, gc.nrx) * gc.sd>>
NVect(gc, glen) == (glen + gc.ntx - 1) \div gc.ntx

---------------------------------------------------------------------------
(* Specular components: the phase of receive antenna gn and transmit       *)
(* antenna gm (from 0), in 1/gN of a turn, for steps gsr and gst.          *)
SpecularIndex(gn, gm, gsr, gst, gN) == (gn * gsr + gm * gst) % gN
=============================================================================
