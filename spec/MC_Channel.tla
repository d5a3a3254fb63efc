----------------------------- MODULE MC_Channel -----------------------------
(***************************************************************************)
(* Design model of the channel configuration and source of the histories   *)
(* replayed on the real classes: all sequences of Depth calls over a small *)
(* alphabet with accepted, refused and interfering calls.                  *)
(***************************************************************************)
EXTENDS Channel, FiniteSets, Json, IOUtils
CONSTANTS Siso, Ntx, Nrx
VARIABLES cfg, hist, good
vars == <<cfg, hist, good>>
Depth == IF IOEnv.TIER = "quick" THEN 3 ELSE 4

Snr(k, sp, sq, rp, rq, ep, eq) == [op |-> "snr", kind |-> k, sp |-> sp, sq |-> sq, rp |-> rp, rq |-> rq, ep |-> ep, eq |-> eq]
Common == {Snr("db", 10, 1, 1, 1, 1, 1), Snr("db", 1, 100, 1, 3, 5, 2), Snr("lin", 3, 7, 2, 3, 1, 2),
           [op |-> "std", p |-> 3, q |-> 2],
           [op |-> "prop", cplx |-> FALSE, len |-> 3], [op |-> "prop", cplx |-> TRUE, len |-> 4]}
SF(re, im, d, vn, c) == [op |-> "setf", f |-> Fading(<<<<<<re, im>>>>>>, 1, d * d, c, <<<<<<vn, 0>>>>>>, d * d, <<<<<<1, 0>>>>>>, 1)]
SisoOps == {SF(1, 0, 1, 0, FALSE), SF(0, 0, 1, 1, FALSE), SF(0, 0, 1, 1, TRUE), SF(3, 0, 5, 16, FALSE), SF(1, 1, 2, 2, TRUE),
            SF(0, 1, 1, 0, TRUE), SF(1, 0, 1, 1, FALSE), SF(3, 0, 5, 15, TRUE), SF(2, 0, 1, -3, FALSE)}
Ones(c) == [i \in 1..Nrx |-> [j \in 1..Ntx |-> IF c THEN <<1, (i + j) % 2>> ELSE <<1, 0>>]]
Unit1 == <<3, 4, 5>>
UnitI == <<0, 1, 1>>
Half == <<1, 0, 2>>
MimoOps == {[op |-> "setf", f |-> Rayleigh(Ntx, Nrx, FALSE)],
            [op |-> "setf", f |-> Fading(Ones(FALSE), 1, 1, FALSE, GIdent(Ntx, 1), 1, GIdent(Nrx, 1), 1)],
            [op |-> "setf", f |-> Fading(Ones(FALSE), 1, 4, FALSE, GIdent(Ntx, 3), 4, GIdent(Nrx, 1), 1)],
            [op |-> "uray", cplx |-> TRUE], [op |-> "uray", cplx |-> FALSE],
            [op |-> "eray", t |-> Unit1, r |-> UnitI, bt |-> 0, br |-> 0], [op |-> "eray", t |-> Half, r |-> UnitI, bt |-> 0, br |-> 0],
            [op |-> "eray", t |-> UnitI, r |-> Unit1, bt |-> 1, br |-> 2], [op |-> "eray", t |-> Unit1, r |-> UnitI, bt |-> 0, br |-> -1],
            [op |-> "urice", base |-> Ones(TRUE), cplx |-> TRUE, kn |-> 3, kd |-> 2],
            [op |-> "urice", base |-> Ones(FALSE), cplx |-> FALSE, kn |-> 1, kd |-> 1],
            [op |-> "urice", base |-> GZeros(Nrx, Ntx), cplx |-> TRUE, kn |-> 3, kd |-> 1],
            [op |-> "erice", base |-> Ones(TRUE), cplx |-> TRUE, kn |-> 5, kd |-> 1, t |-> UnitI, r |-> Unit1, bt |-> 0, br |-> 0],
            [op |-> "erice", base |-> Ones(FALSE), cplx |-> FALSE, kn |-> 2, kd |-> 3, t |-> Unit1, r |-> UnitI, bt |-> 1, br |-> 0],
            [op |-> "erice", base |-> Ones(TRUE), cplx |-> TRUE, kn |-> 2, kd |-> 3, t |-> Unit1, r |-> Half, bt |-> 1, br |-> 0],
            [op |-> "erice", base |-> Ones(TRUE), cplx |-> TRUE, kn |-> 2, kd |-> 3, t |-> Unit1, r |-> UnitI, bt |-> -1, br |-> 1]}
Ops == Common \cup (IF Siso THEN SisoOps ELSE MimoOps)

Init == cfg = InitCfg(Siso, Ntx, Nrx) /\ hist = <<>> /\ good = 0
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops :
             /\ hist' = Append(hist, o)
             /\ IF o.op = "prop"
                THEN cfg' = cfg /\ good' = IF PropExc(cfg, o.cplx) = {""} THEN Len(hist) + 1 ELSE good
                ELSE cfg' = Step(cfg, o).cfg /\ good' = good
        /\ IF Len(hist') = Depth THEN PrintT("BEHAVIOUR " \o ToJson([siso |-> Siso, ntx |-> Ntx, nrx |-> Nrx, ops |-> hist'])) ELSE TRUE
Spec == Init /\ [][Next]_vars

\* The power is normalised whatever was called.
Normalised == Power(cfg, Ntx, Nrx) = 0
\* Correlation matrices stay Hermitian with equal diagonal entries.
Hermitian == /\ \A i, j \in 1..Ntx : cfg.rt[i][j] = GConj(cfg.rt[j][i]) /\ cfg.rt[i][i] = cfg.rt[1][1]
             /\ \A i, j \in 1..Nrx : cfg.rr[i][j] = GConj(cfg.rr[j][i]) /\ cfg.rr[i][i] = cfg.rr[1][1]
\* A real channel has a real mean and real correlations; otherwise its output could not be real.
RealIsReal == ~cfg.cplx => /\ \A i \in 1..Nrx : \A j \in 1..Ntx : cfg.base[i][j][2] = 0
                           /\ \A i, j \in 1..Ntx : cfg.rt[i][j][2] = 0
NoiseSane == cfg.nv # <<>> => cfg.nv[1] > 0 /\ cfg.nv[2] > 0
RefusedChangesNothing == [][\A o \in Ops : hist' = Append(hist, o) /\ o.op # "prop" /\ ~CanApply(cfg, o) => cfg' = cfg]_vars
\* Noise settings and fading settings do not interfere.
Orthogonal == [][\A o \in Ops : hist' = Append(hist, o) =>
                   (o.op \in {"snr", "std"} => cfg' = [cfg EXCEPT !.nv = cfg'.nv]) /\ (o.op \notin {"snr", "std"} => cfg'.nv = cfg.nv)]_vars
=============================================================================
