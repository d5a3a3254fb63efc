----------------------------- MODULE TR_Channel -----------------------------
(***************************************************************************)
(* Trace specification of the channels (C19, C20, C21).  chn maps every    *)
(* channel object of the trace to its configuration (Channel.tla).         *)
(***************************************************************************)
EXTENDS Channel, BigNat, TraceKit
VARIABLES l, fails, done, chn
vars == <<l, fails, done, chn>>
Prop == IOEnv.PROP
Only(p, cl) == IF Prop = p THEN cl ELSE <<>>

NearI(a, b, tol) == a - b <= tol /\ b - a <= tol
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
BnAbs(x) == BnOf(Abs(x))
\* recorded part <<sign, |value| or value^2>> against (num/den) resp. (base^2 sn/sd)
PartIs(sg, x, num, den) == sg = Sgn(num) /\ (num # 0 => FloatNear(x, BnAbs(num), BnOf(den)))
SqIs(sg, x, b, sn, sd) == IF b = 0 \/ sn = 0 THEN sg = 0
                          ELSE sg = Sgn(b) /\ FloatNear(x, BnMulSmall(BnOf(sn), b * b), BnOf(sd))
MatIs(o, m, den) == Len(o) = Len(m) /\ \A i \in 1..Len(m) : Len(o[i]) = Len(m[i]) /\ \A j \in 1..Len(m[i]) :
                       PartIs(o[i][j][1], o[i][j][2], m[i][j][1], den) /\ PartIs(o[i][j][3], o[i][j][4], m[i][j][2], den)
BaseIs(o, m, sn, sd) == Len(o) = Len(m) /\ \A i \in 1..Len(m) : Len(o[i]) = Len(m[i]) /\ \A j \in 1..Len(m[i]) :
                       SqIs(o[i][j][1], o[i][j][2], m[i][j][1], sn, sd) /\ SqIs(o[i][j][3], o[i][j][4], m[i][j][2], sn, sd)
\* k-factor S (sn/sd) / (tr rt tr rr / (rtd rrd))
KIs(x, c) == LET los == BnMul(BnMul(BnOf(SumSq(c.base)), BnOf(c.sn)), BnMul(BnOf(c.rtd), BnOf(c.rrd)))
                 nl  == BnMul(BnMul(BnOf(GTrace(c.rt, c.ntx)), BnOf(GTrace(c.rr, c.nrx))), BnOf(c.sd))
             IN FloatNear(x, los, nl)
NvIs(x, nv) == IF nv = <<>> THEN x.k = "none" ELSE FloatNear(x, BnOf(nv[1]), BnOf(nv[2]))

Shows(o, c) ==
     Clause(o.cplx = c.cplx, "realness") \o Clause(o.ntx = c.ntx /\ o.nrx = c.nrx, "antennas")
  \o Clause(BaseIs(o.base, c.base, c.sn, c.sd), "mean") \o Clause(MatIs(o.rt, c.rt, c.rtd), "transmit-correlation")
  \o Clause(MatIs(o.rr, c.rr, c.rrd), "receive-correlation") \o Clause(NvIs(o.nv, c.nv), "noise-std") \o Clause(KIs(o.kf, c), "k-factor")

New ==
  /\ Trace[l].ev = "new"
  /\ LET e  == Trace[l]
         c0 == InitCfg(e.siso, e.ntx, e.nrx)
         c1 == IF Has(e, "std") THEN Apply(c0, [op |-> "std", p |-> e.std[1], q |-> e.std[2]]) ELSE c0
         s  == IF Has(e, "f") THEN Step(c1, [op |-> "setf", f |-> e.f]) ELSE [cfg |-> c1, exc |-> ""]
     IN /\ fails' = AddFails(fails, l, Only("C19",
             IF s.exc # "" THEN Clause(e.exc = s.exc, "unnormalised-accepted")
             ELSE IF Raised(e) THEN <<"construction-raised">> ELSE Shows(e.obs, s.cfg)) \o Only("C20", Clause(e.virgin, "records-of-nothing")))
        /\ chn' = IF s.exc # "" THEN chn ELSE (e.o :> ([rk |-> <<>>] @@ s.cfg)) @@ chn

CallEv ==
  /\ Trace[l].ev = "call"
  /\ LET e == Trace[l]
         s == Step(chn[e.o], e.call)
     IN /\ fails' = AddFails(fails, l, Only("C19",
             (IF s.exc # "" THEN Clause(e.exc = s.exc, "invalid-accepted") ELSE Clause(~Raised(e), "call-raised"))
             \o Shows(e.obs, s.cfg)) \o Only("C20", Clause(e.recsame, "records-touched")))
        /\ chn' = (e.o :> IF s.exc # "" \/ e.call.op \in {"snr", "std"} THEN s.cfg
                           ELSE [s.cfg EXCEPT !.rk = IF e.call.op = "eray" /\ e.call.bt = 0 /\ e.call.br = 0
                                                    THEN <<e.call.t, e.call.r>> ELSE <<>>]) @@ chn

---------------------------------------------------------------------------
U == 10000      \* samples are recorded in units of 1/U
NearC(a, b, tol) == NearI(a[1], b[1], tol) /\ NearI(a[2], b[2], tol)
AddC(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Sent(e, c, i, k) == LET p == (i - 1) * c.ntx + k IN IF p <= Len(e.msg) THEN e.msg[p] ELSE <<0, 0>>
RECURSIVE Faded(_, _, _, _, _)
Faded(e, c, i, j, k) == IF k = 0 THEN <<0, 0>> ELSE AddC(GMul(e.gai[i][j][k], Sent(e, c, i, k)), Faded(e, c, i, j, k - 1))
\* When both correlations have rank one and there is no mean, one gain per use determines all others.
\* (Told antenna by antenna, so that the powers of the coefficients stay small.)
RankOne(e, c, rt, rr) ==
  LET next(g, h, z) == NearC(GMul(g, <<z[1], z[2]>>), GScale(h, z[3]), 4 * z[3])       \* g is the gain after h
  IN \A i \in 1..Len(e.gai) : \A j \in 1..c.nrx : \A k \in 1..c.ntx :
        /\ j > 1 => next(e.gai[i][j][k], e.gai[i][j - 1][k], rr)
        /\ k > 1 => next(e.gai[i][j][k], e.gai[i][j][k - 1], rt)
ZeroMat(m) == \A i \in 1..Len(m) : \A j \in 1..Len(m[i]) : m[i][j] = <<0, 0>>
NoNlos(c) == GTrace(c.rt, c.ntx) = 0
\* Without a random part the gains are the mean (an integer quotient when sd is a square).
GainsAreMean(e, c) ==
  \A d \in 1..20 : d * d = c.sd /\ c.sn = 1 =>
    \A i \in 1..Len(e.gai) : \A j \in 1..c.nrx : \A k \in 1..c.ntx : NearC(GScale(e.gai[i][j][k], d), GScale(c.base[j][k], U), d)

VerifyProp(e, c) ==
  LET ex == PropExc(c, e.cplx) IN
  IF "" \notin ex
  THEN Clause(e.exc \in ex, "not-refused") \o Clause(e.recsame, "records-touched") \o Clause(e.unchanged, "message-modified")
  ELSE IF Raised(e) THEN <<"propagate-raised">>
  ELSE IF ~e.shape THEN <<"shape">>
  ELSE LET nv == NVect(c, e.len) IN
       Clause(\A i \in 1..nv : \A j \in 1..c.nrx : NearC(e.rec[i][j], AddC(e.unn[i][j], e.noi[i][j]), 2), "received-is-faded-plus-noise")
    \o Clause(\A i \in 1..nv : \A j \in 1..c.nrx : NearC(e.unn[i][j], Faded(e, c, i, j, c.ntx), 2 + 10 * c.ntx), "faded-is-gains-times-message")
    \o Clause(e.real = ~c.cplx, "realness")
    \o Clause(NoNlos(c) => GainsAreMean(e, c), "gains-without-fading")
    \o Clause(c.rk # <<>> => RankOne(e, c, c.rk[1], c.rk[2]), "rank-one-correlation")
    \o Clause(~NoNlos(c) => e.gdist = nv, "one-gain-per-use")
    \o Clause(c.nv[1] # 0 => e.ndist = nv, "one-noise-per-use")
    \o Clause(c.nv[1] = 0 => \A i \in 1..nv : \A j \in 1..c.nrx : e.noi[i][j] = <<0, 0>>, "noise-without-noise")
    \o Clause(e.unchanged, "message-modified") \o Clause(e.recsame, "records-shared-with-result")

PropEv ==
  /\ Trace[l].ev = "prop"
  /\ LET e == Trace[l] IN fails' = AddFails(fails, l, Only("C20", VerifyProp(e, chn[e.o])))
  /\ UNCHANGED chn

---------------------------------------------------------------------------
(* Sample moments over 20000 uses (C19): 8 and more standard deviations.   *)
GEntry(m, i, j) == m[i][j]
\* x (in 1/1000) is close to the product of two correlation entries
CovIs(x, a, b, den) == LET p == GMul(a, b) IN
  \* |x den - 1000 p| <= 60 den, den up to 10^7: compare in units of den/1000
  LET s == IF den > 2000000 THEN den \div 1000000 ELSE 1
      q == <<p[1] \div s, p[2] \div s>>
      dd == den \div s
      near(u, v) == LET t == u * dd - v * 1000 IN t <= 60 * dd + 1000 /\ t >= -60 * dd - 1000
  IN near(x[1], q[1]) /\ near(x[2], q[2])
VerifyEnergy(e, c) ==
  IF Raised(e) THEN <<"propagate-raised">>
  ELSE Clause(FloatWithin(e.npow, BnOf(c.nv[1]), BnOf(c.nv[2] * (IF c.cplx THEN 2 ELSE 1)), <<12>>), "noise-power")
    \o Clause(\A i, j \in 1..c.nrx : NearC(e.ncov[i][j], IF i = j THEN <<1000, 0>> ELSE <<0, 0>>, 80), "noise-white")
    \o Clause(\A i \in 1..c.nrx : \A j \in 1..c.ntx :
                \* mean^2 sd = base^2 sn up to 0.05 on the mean
                LET near(m, b) == \* (|m| - 50)^2 sd <= b^2 sn 10^6 <= (|m| + 50)^2 sd
                      LET lo == IF Abs(m) < 50 THEN 0 ELSE Abs(m) - 50
                          hi == Abs(m) + 50
                          t  == BnMul(BnMul(BnOf(b * b), BnOf(c.sn)), <<0, 100>>)
                      IN /\ BnCmp(BnMul(BnOf(lo * lo), BnOf(c.sd)), t) <= 0
                         /\ BnCmp(t, BnMul(BnOf(hi * hi), BnOf(c.sd))) <= 0
                         /\ (Abs(m) > 50 => Sgn(m) = Sgn(b))
                IN near(e.mean[i][j][1], c.base[i][j][1]) /\ near(e.mean[i][j][2], c.base[i][j][2]), "mean-gain")
    \* covariance of gains (i,j) and (k,m): rr[i][k] rt[j][m]
    \o Clause(c.rtd * c.rrd <= 100000 => \A i, k \in 1..c.nrx : \A j, m \in 1..c.ntx :
                CovIs(e.cov[(i - 1) * c.ntx + j][(k - 1) * c.ntx + m], c.rr[i][k], c.rt[j][m], c.rtd * c.rrd), "gain-covariance")
(* Specular components (C19): unit modulus, exact phases, nothing configured by asking for them. *)
VerifySpecular(e, c) ==
     (IF e.neg THEN Clause(e.exc = "ValueError", "negative-distance-accepted")
      ELSE IF Raised(e) THEN <<"specular-raised">>
      ELSE IF Len(e.idx) # c.nrx \/ \E i \in 1..Len(e.idx) : Len(e.idx[i]) # c.ntx THEN <<"specular-shape">>
      ELSE Clause(\A i \in 1..c.nrx : \A j \in 1..c.ntx : e.idx[i][j] = SpecularIndex(i - 1, j - 1, e.sr, e.st, e.n), "specular-phase")
        \o Clause(\A i \in 1..c.nrx : \A j \in 1..c.ntx :
                    e.off[i][j] <= 1000 /\ NearI(e.mag[i][j], 1000000, 10), "specular-unit-modulus"))
  \o Shows(e.obs, c)
VerifyRice(e) == IF Raised(e) THEN <<"specular-mean-refused">>
                 ELSE Clause(e.cplx, "realness") \o Clause(FloatNear(e.kf, BnOf(e.k), BnOf(1)), "k-factor")
SpecularEv ==
  /\ Trace[l].ev \in {"specular", "rice"}
  /\ LET e == Trace[l] IN fails' = AddFails(fails, l, Only("C19", IF e.ev = "rice" THEN VerifyRice(e) ELSE VerifySpecular(e, chn[e.o])))
  /\ UNCHANGED chn
EnergyEv ==
  /\ Trace[l].ev = "energy"
  /\ LET e == Trace[l] IN fails' = AddFails(fails, l, Only("C19", VerifyEnergy(e, chn[e.o])))
  /\ UNCHANGED chn

---------------------------------------------------------------------------
(* Discrete channels (C21).                                                *)
Corrupted(ev, b) == IF ev = "bec" THEN -1 ELSE 1 - b
VerifyBits(e) ==
  IF Raised(e) THEN <<"channel-raised">>
  ELSE IF Len(e.y) # Len(e.x) THEN <<"length">>
  ELSE Clause(\A i \in 1..Len(e.x) : e.y[i] \in {e.x[i], Corrupted(e.ev, e.x[i])}, "undeclared-corruption")
    \o Clause(e.p[1] = 0 => e.y = e.x, "probability-zero")
    \o Clause(e.p[1] = e.p[2] => \A i \in 1..Len(e.x) : e.y[i] = Corrupted(e.ev, e.x[i]), "probability-one")
    \o Clause(e.unchanged /\ e.own, "input-modified")
\* 20000 positions: within 7 and more standard deviations of the declared rate, alike for both bit values and neighbours.
VerifyRate(e) ==
  LET near(h, n, pn, pd) == NearI(h * pd, n * pn, (n * pd) \div 25) IN
     Clause(near(e.hits, e.n, e.p[1], e.p[2]), "corruption-rate")
  \o Clause(near(e.ones, e.nones, e.p[1], e.p[2]), "corruption-depends-on-bit")
  \o Clause(near(e.pairs, e.n, e.p[1] * e.p[1], e.p[2] * e.p[2]), "corruption-not-independent")
BitsEv ==
  /\ Trace[l].ev \in {"bec", "bsc", "rate"}
  /\ LET e == Trace[l] IN fails' = AddFails(fails, l, IF e.ev = "rate" THEN VerifyRate(e) ELSE VerifyBits(e))
  /\ UNCHANGED chn

TraceInit == l = Start /\ fails = <<>> /\ done = FALSE /\ chn = <<>>
TraceNext ==
  \/ l <= NTrace /\ done' = done /\ l' = l + 1 /\ (New \/ CallEv \/ PropEv \/ SpecularEv \/ EnergyEv \/ BitsEv)
  \/ l > NTrace /\ ~done /\ done' = TRUE /\ Verdict(fails) /\ UNCHANGED <<l, fails, chn>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
