------------------------------ MODULE MC_Noise ------------------------------
(***************************************************************************)
(* The accumulator over every stream of three short batches: it counts     *)
(* what the closed formulas say, wherever the batches are cut.             *)
(***************************************************************************)
EXTENDS Noise, FiniteSets, IOUtils
VARIABLES acc, all, calls
vars == <<acc, all, calls>>
Deep == IOEnv.TIER = "thorough"
Vals == {<<0, 0>>, <<1, -1>>, <<2, 0>>, <<-3, 2>>}
V == <<2, 1>>
Batches == UNION {[1..k -> Vals] : k \in 1..(IF Deep THEN 3 ELSE 2)}
Init == acc = Acc0 /\ all = <<>> /\ calls = 0
Next == calls < 2 + (IF Deep THEN 0 ELSE 1) /\ calls' = calls + 1 /\ \E b \in Batches : acc' = AddBatch(acc, b, V) /\ all' = all \o b
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_, _)
Sum(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + Sum(F, n - 1)
Closed ==
  /\ acc.n = Len(all)
  /\ \A c \in {1, 2} :
       /\ acc.s[c] = Sum(LAMBDA i : all[i][c], Len(all)) /\ acc.ss[c] = Sum(LAMBDA i : all[i][c] * all[i][c], Len(all))
       /\ acc.lag[c] = Sum(LAMBDA i : IF i = 1 THEN 0 ELSE all[i][c] * all[i - 1][c], Len(all))
       /\ acc.in[c] = Cardinality({i \in 1..Len(all) : 1000 * all[i][c] * all[i][c] <= 455 * V[c]})
       /\ acc.out[c] = Cardinality({i \in 1..Len(all) : all[i][c] * all[i][c] > 4 * V[c]})
       /\ acc.ss[c] * acc.n >= acc.s[c] * acc.s[c]
  /\ acc.x = Sum(LAMBDA i : all[i][1] * all[i][2], Len(all))
  /\ AddPairs(<<0, 0, 0, 0>>, all, all) = <<acc.ss[1], acc.x, acc.x, acc.ss[2]>>
Roots == \A n \in {0, 1, 2, 4, 5, 99, 100, 8000, 999999} : LET r == Root(n) IN r * r >= n /\ (r > 0 => (r - 1) * (r - 1) < n)
=============================================================================
