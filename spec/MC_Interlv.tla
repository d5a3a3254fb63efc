----------------------------- MODULE MC_Interlv -----------------------------
(***************************************************************************)
(* Design model of interleaving: for every permutation, de-interleaving    *)
(* undoes interleaving and the other way round, and one observation on     *)
(* distinct values determines the permutation (what TR_Interlv relies on). *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT MaxN
VARIABLES perm, data, hist
vars == <<perm, data, hist>>

Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : f[i] = f[j] => i = j}
Interlv(p, x) == [i \in DOMAIN p |-> x[p[i]]]
Deinterlv(p, y) == [j \in DOMAIN p |-> y[CHOOSE i \in DOMAIN p : p[i] = j]]

Init == \E n \in 1..MaxN : perm \in Perms(n) /\ data = [i \in 1..n |-> i] /\ hist = 0
Next == \/ data' = Interlv(perm, data) /\ hist' = hist + 1 /\ hist < 3 /\ perm' = perm
        \/ data' = Deinterlv(perm, data) /\ hist' = hist - 1 /\ hist > -3 /\ perm' = perm
Spec == Init /\ [][Next]_vars

Inverse == Deinterlv(perm, Interlv(perm, data)) = data /\ Interlv(perm, Deinterlv(perm, data)) = data
RECURSIVE Power(_, _)
Power(h, x) == IF h = 0 THEN x ELSE IF h > 0 THEN Power(h - 1, Interlv(perm, x)) ELSE Power(h + 1, Deinterlv(perm, x))
Balanced == data = Power(hist, [i \in DOMAIN perm |-> i])
Determined == \A q \in Perms(Len(data)) : Interlv(q, data) = Interlv(perm, data) => q = perm
=============================================================================
