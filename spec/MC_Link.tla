------------------------------- MODULE MC_Link ------------------------------
(***************************************************************************)
(* Design model of link simulations and source of the error histories      *)
(* replayed on LinkModel: the environment chooses the errors of each send. *)
(***************************************************************************)
EXTENDS Link, Json, IOUtils
CONSTANT Full
VARIABLES cfg, run, hist
vars == <<cfg, run, hist>>
Deep == IOEnv.TIER # "quick"

Cfgs == IF Full
  THEN {[full |-> TRUE, npoints |-> n, limit |-> t, errmin |-> e, chunk |-> 4, per |-> p, stop |-> s] :
          n \in 1..2, t \in 1..(IF Deep THEN 3 ELSE 2), e \in {0, 1, 2, 4}, p \in 1..2, s \in BOOLEAN}
  ELSE {[full |-> FALSE, npoints |-> n, limit |-> t, errmin |-> e, chunk |-> 4, per |-> 1, stop |-> TRUE] :
          n \in 1..3, t \in {1, 4, 5, 8, 9, 12}, e \in 1..(IF Deep THEN 5 ELSE 4)}
Errs(c) == LET one == IF Full THEN {0, 1, 3} ELSE 0..(IF Deep THEN 4 ELSE 2) IN [1..c.per -> one]

Init == cfg \in Cfgs /\ run = Settle(cfg, RInit) /\ hist = <<>>
Next == /\ ~run.over
        /\ \E e \in Errs(cfg) : run' = Settle(cfg, RSend(run, e)) /\ hist' = Append(hist, e)
        /\ cfg' = cfg
        /\ IF run'.over THEN PrintT("BEHAVIOUR " \o ToJson([cfg |-> cfg, errs |-> hist'])) ELSE TRUE
Spec == Init /\ [][Next]_vars

\* Every send is accounted to exactly one point, in order.
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Accounted == Flat(run.past) \o run.sent = hist
\* All points but the last closed one have their errors; the limit holds.
Sound == /\ \A i \in 1..Len(run.past) : i < Len(run.past) => Worth(cfg, run.past[i])
         /\ \A i \in 1..Len(run.past) : Len(run.past[i]) >= 1
         /\ \A i \in 1..Len(run.past) : IF Full THEN Len(run.past[i]) <= cfg.limit
                                        ELSE (Len(run.past[i]) - 1) * cfg.chunk < cfg.limit
         /\ \A i \in 1..Len(run.past) : Bers(cfg, run)[i][1] <= Bers(cfg, run)[i][2]
\* Minimality: no point could have stopped earlier.
Minimal == \A i \in 1..Len(run.past) : \A j \in 1..(Len(run.past[i]) - 1) : GoesOn(cfg, SubSeq(run.past[i], 1, j))
\* The unit is the least number of message bits whose code word fills whole vectors.
ASSUME \A v \in 1..16, q \in 1..8 : \A p \in 1..q :
         LET u == Unit(v, p, q) IN /\ (u * q) % p = 0 /\ ((u * q) \div p) % v = 0
                                   /\ LGcd(p, q) = 1 => \A w \in 1..(u - 1) : ~((w * q) % p = 0 /\ ((w * q) \div p) % v = 0)
=============================================================================
