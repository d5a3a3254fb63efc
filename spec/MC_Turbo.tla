------------------------------ MODULE MC_Turbo ------------------------------
(***************************************************************************)
(* Design model of the turbo exchange with hard extrinsic values, over all *)
(* permutations and noiseless words: whatever the interleaver, the word a  *)
(* pair of component decoders sees through it is consistent.  Component    *)
(* decoders are abstract: given correct priors (or none) they return the   *)
(* transmitted bits.  The schedule must deliver each of them its own order.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N, Iterations
Perms == {f \in [1..N -> 1..N] : \A i, j \in 1..N : f[i] = f[j] => i = j}
Words == [1..N -> 0..1]

\* order: whose order the extrinsic values in flight are in; value: what they say
VARIABLES prm, word, phase, flight, decided
vars == <<prm, word, phase, flight, decided>>

Interleave(x, p) == [i \in 1..N |-> x[p[i]]]
Deinterleave(y, p) == [j \in 1..N |-> y[CHOOSE i \in 1..N : p[i] = j]]

Init == /\ prm \in Perms /\ word \in Words /\ phase = 1 /\ decided = <<>>
        /\ flight = [i \in 1..N |-> 2]                  \* 2: nothing known

\* A component decoder contradicting priors would be confused: it decides only from consistent ones.
Component(truth, pri) == [i \in 1..N |-> IF pri[i] \in {2, truth[i]} THEN truth[i] ELSE 1 - truth[i]]

First  == /\ phase % 2 = 1 /\ phase < 2 * Iterations
          /\ flight' = Interleave(Component(word, flight), prm)
          /\ phase' = phase + 1 /\ UNCHANGED <<prm, word, decided>>
Second == /\ phase % 2 = 0 /\ phase <= 2 * Iterations
          /\ LET r == Component(Interleave(word, prm), flight) IN
             /\ flight' = Deinterleave(r, prm)
             /\ decided' = IF phase = 2 * Iterations THEN Deinterleave(r, prm) ELSE <<>>
          /\ phase' = phase + 1 /\ UNCHANGED <<prm, word>>
Next == First \/ Second
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OwnOrder == phase > 1 => flight = (IF phase % 2 = 0 THEN Interleave(word, prm) ELSE word)
Decision == decided # <<>> => decided = word
Ends == <>(phase = 2 * Iterations + 1 /\ decided = word)
=============================================================================
