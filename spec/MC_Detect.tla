------------------------------ MODULE MC_Detect -----------------------------
(***************************************************************************)
(* Design model of the K-best search on triangular systems: level by level *)
(* descent; with every candidate kept it ends at the maximum likelihood    *)
(* vector, and no K gives less than the optimum or a false metric.         *)
(***************************************************************************)
EXTENDS Detect
CONSTANTS N, MaxR, MaxY
VARIABLES rmat, zvec, keep, level, surv, lossy
vars == <<rmat, zvec, keep, level, surv, lossy>>
Con == << <<1, 0>>, <<-1, 0>>, <<0, 3>> >>
Re(v) == <<v, 0>>
Mats == {[i \in 1..N |-> [j \in 1..N |-> IF j < i THEN <<0, 0>> ELSE Re(f[<<i, j>>])]] :
          f \in {g \in [(1..N) \X (1..N) -> 0..MaxR] : \A i \in 1..N : g[<<i, i>>] > 0 /\ \A j \in 1..(i - 1) : g[<<i, j>>] = 0}}
Init == /\ rmat \in Mats /\ zvec \in [1..N -> {<<a, b>> : a \in (-MaxY)..MaxY, b \in {0, 1}}]
        /\ keep \in {1, 2, 3^(N - 1)} /\ level = N /\ surv = <<[x |-> <<>>, d |-> 0]>> /\ lossy = FALSE
Descend == /\ level > 0
           /\ LET ch == Children(zvec, rmat, 1, Con, level, surv)
              IN /\ surv' = Kept(ch, IF level = 1 THEN 1 ELSE keep)
                 /\ lossy' = (lossy \/ (level > 1 /\ Len(ch) > keep))
           /\ level' = level - 1 /\ UNCHANGED <<rmat, zvec, keep>>
Spec == Init /\ [][Descend]_vars
True_ == \A i \in 1..Len(surv) : level = 0 => surv[i].d = DistOf(zvec, rmat, Con, surv[i].x)
Opt == LET ds == AllDists(zvec, rmat, Con, N) IN MinSeq(ds, 2, ds[1])
NeverBelow == level = 0 => \A i \in 1..Len(surv) : surv[i].d >= Opt
Exact == (level = 0 /\ ~lossy) => \A i \in 1..Len(surv) : surv[i].d = Opt
Alive == Len(surv) > 0
=============================================================================
