------------------------------- MODULE TR_Noise ------------------------------
(***************************************************************************)
(* Trace specification of noise and fading samples (C32).  A run is a      *)
(* configuration (a history of calls of Channel.tla, or awgn parameters)   *)
(* and a series of transmissions; the state holds the accumulators of all  *)
(* noise and gain streams of the run and the noise seen so far.            *)
(***************************************************************************)
EXTENDS Channel, BigNat, Noise, TraceKit
VARIABLES l, fails, done, run
vars == <<l, fails, done, run>>

RECURSIVE Plain(_)
Plain(a) == IF a = <<>> THEN 0 ELSE a[1] + BnBase * Plain(Tail(a))
\* p u^2 / q in squared recording units, u = un[1] / un[2]
Units(p, q, un) == Plain(BnDivSmall(BnDivSmall(BnDivSmall(BnMulSmall(BnMulSmall(BnMulSmall(BnOf(p), un[1]), un[1]), 1), q), un[2]), un[2]))
Parts(cplx, p, q, un) == IF cplx THEN <<Units(p, 2 * q, un), Units(p, 2 * q, un)>> ELSE <<Units(p, q, un), 0>>

Configured(e) == FoldLeft(LAMBDA c, op : Step(c, op).cfg, InitCfg(e.siso, e.ntx, e.nrx), e.ops)
\* The noise parameter counts both complex dimensions in full: a complex sample has half of it (nt Es / (rate SNR) in all).
\* Gains: the product of the correlation diagonals.
NoiseVars(e, c) == IF e.kind = "awgn" THEN <<Parts(e.cplx, e.energy[1] * e.rate[2] * e.snr[2], e.energy[2] * e.rate[1] * e.snr[1], e.un)>>
                   ELSE [i \in 1..c.nrx |-> Parts(c.cplx, c.nv[1], c.nv[2] * (IF c.cplx THEN 2 ELSE 1), e.un)]
GainVars(e, c) == IF e.kind = "awgn" THEN <<>>
                  ELSE [k \in 1..(c.nrx * c.ntx) |->
                          LET i == ((k - 1) \div c.ntx) + 1 j == ((k - 1) % c.ntx) + 1
                          IN Parts(c.cplx, c.rr[i][i][1] * c.rt[j][j][1], c.rtd * c.rrd, e.ug)]
RootOf(n) == CHOOSE r \in 1..40 : r * r = n
GainMeans(e, c) == IF e.kind = "awgn" THEN <<>>
                   ELSE [k \in 1..(c.nrx * c.ntx) |->
                          LET z == c.base[((k - 1) \div c.ntx) + 1][((k - 1) % c.ntx) + 1] d == RootOf(c.sd) * e.ug[2]
                          IN <<(z[1] * e.ug[1]) \div d, (z[2] * e.ug[1]) \div d>>]
\* Pairs of gain streams and the products declared for them: gains [a, i] and [b, j] have correlation rr[a][b] rt[i][j].
RowOf(c, k) == (k - 1) \div c.ntx
ColOf(c, k) == k - 1 - c.ntx * RowOf(c, k)
RECURSIVE PairsTo(_)
PairsTo(n) == IF n <= 1 THEN <<>> ELSE PairsTo(n - 1) \o [k \in 1..(n - 1) |-> <<k, n>>]
GainPairs(c) == PairsTo(c.nrx * c.ntx)
ScaledTo(v, c, ug) == (v * ug[1] * ug[1]) \div (c.rtd * c.rrd)
CorrOf(c, p) == GMul(c.rr[RowOf(c, p[1]) + 1][RowOf(c, p[2]) + 1], c.rt[ColOf(c, p[1]) + 1][ColOf(c, p[2]) + 1])
Declared(c, z, ug) == IF c.cplx THEN <<ScaledTo(z[1], c, ug) \div 2, -(ScaledTo(z[2], c, ug) \div 2), ScaledTo(z[2], c, ug) \div 2, ScaledTo(z[1], c, ug) \div 2>>
                      ELSE <<ScaledTo(z[1], c, ug), 0, 0, 0>>
Begin ==
  /\ Trace[l].ev = "begin"
  /\ \E c \in {TLCEval(IF Trace[l].kind = "awgn" THEN <<>> ELSE Configured(Trace[l]))} :
     \E nv \in {TLCEval(NoiseVars(Trace[l], c))} : \E gv \in {TLCEval(GainVars(Trace[l], c))} :
       run' = [cplx |-> IF Trace[l].kind = "awgn" THEN Trace[l].cplx ELSE c.cplx,
               nv |-> nv, gv |-> gv, gm |-> TLCEval(GainMeans(Trace[l], c)),
               na |-> [k \in 1..Len(nv) |-> Acc0], ga |-> [k \in 1..Len(gv) |-> Acc0],
               gp |-> TLCEval(IF c = <<>> THEN <<>> ELSE GainPairs(c)),
               gx |-> TLCEval(IF c = <<>> THEN <<>> ELSE [k \in 1..Len(GainPairs(c)) |-> Declared(c, CorrOf(c, GainPairs(c)[k]), Trace[l].ug)]),
               gg |-> IF c = <<>> THEN <<>> ELSE [k \in 1..Len(GainPairs(c)) |-> <<0, 0, 0, 0>>],     \* products of gain streams
               nn |-> [k \in 1..Len(nv) |-> <<0, 0, 0, 0>>],      \* products of noise streams k and k + 1
               ng |-> [k \in 1..Len(gv) |-> <<0, 0, 0, 0>>],      \* products of the first noise and gain stream k
               seen |-> {}]
  /\ fails' = fails
\* noise[k], gains[k]: the samples of stream k in this call.
Batch ==
  /\ Trace[l].ev = "batch"
  /\ LET e == Trace[l]
         dev(k) == [i \in 1..Len(e.gains[k]) |-> <<e.gains[k][i][1] - run.gm[k][1], e.gains[k][i][2] - run.gm[k][2]>>]
         shape == ~Raised(e) /\ Len(e.noise) = Len(run.nv) /\ (\A k \in 1..Len(e.noise) : Len(e.noise[k]) = e.uses)
                  /\ Len(e.gains) = Len(run.gv) /\ (\A k \in 1..Len(e.gains) : Len(e.gains[k]) = e.uses)
     IN IF ~shape THEN fails' = AddFails(fails, l, IF Raised(e) THEN <<"transmission-raised">> ELSE <<"shape">>) /\ UNCHANGED run
        ELSE \E gs \in {TLCEval([k \in 1..Len(e.gains) |-> TLCEval(dev(k))])} :
             /\ fails' = AddFails(fails, l, Clause(e.fp \notin run.seen, "noise-repeated") \o Clause(e.distinct, "noise-repeated-in-call")
                   \o Clause(e.unchanged, "argument-modified") \o Clause(e.real = ~run.cplx, "realness"))
             /\ run' = [run EXCEPT !.seen = @ \cup {e.fp},
                   !.na = [k \in 1..Len(run.nv) |-> TLCEval(AddBatch(run.na[k], e.noise[k], run.nv[k]))],
                   !.ga = [k \in 1..Len(run.gv) |-> TLCEval(AddBatch(run.ga[k], gs[k], run.gv[k]))],
                   !.nn = [k \in 1..Len(run.nv) |-> IF k = Len(run.nv) THEN run.nn[k] ELSE TLCEval(AddPairs(run.nn[k], e.noise[k], e.noise[k + 1]))],
                   !.gg = [k \in 1..Len(run.gp) |-> TLCEval(AddPairs(run.gg[k], gs[run.gp[k][1]], gs[run.gp[k][2]]))],
                   !.ng = [k \in 1..Len(run.gv) |-> TLCEval(AddPairs(run.ng[k], e.noise[1], gs[k]))]]
RECURSIVE Cat(_, _)
Cat(F(_), n) == IF n = 0 THEN <<>> ELSE Cat(F, n - 1) \o F(n)
Tagged(tag, s) == [i \in 1..Len(s) |-> tag \o s[i]]
End ==
  /\ Trace[l].ev = "end"
  /\ fails' = AddFails(fails, l,
       IF run.na[1].n = 0 THEN <<"nothing-transmitted">>
       ELSE Tagged("noise-", Cat(LAMBDA k : StreamFails(run.na[k], run.nv[k]), Len(run.nv)))
         \o Tagged("gain-", Cat(LAMBDA k : StreamFails(run.ga[k], run.gv[k]), Len(run.gv)))
         \o Tagged("noise-noise-", Cat(LAMBDA k : PairFails(run.nn[k], run.na[1].n, run.nv[k], run.nv[k + 1]), Len(run.nv) - 1))
         \o (IF \A k \in 1..Len(run.gp) : CorOK(run.gg[k], run.na[1].n, run.gx[k], run.gv[run.gp[k][1]], run.gv[run.gp[k][2]])
             THEN <<>> ELSE <<"gain-correlation">>)
         \o Tagged("noise-gain-", Cat(LAMBDA k : PairFails(run.ng[k], run.na[1].n, run.nv[1], run.gv[k]), Len(run.gv))))
  /\ UNCHANGED run

TraceInit == l = Start /\ fails = <<>> /\ done = FALSE /\ run = <<>>
TraceNext ==
  \/ l <= NTrace /\ l' = l + 1 /\ done' = done /\ (Begin \/ Batch \/ End)
  \/ l > NTrace /\ ~done /\ done' = TRUE /\ Verdict(fails) /\ UNCHANGED <<l, fails, run>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
