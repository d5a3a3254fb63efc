----------------------------- MODULE MC_Viterbi -----------------------------
(***************************************************************************)
(* Design model of the add-compare-select decoder: per state the metric    *)
(* and one survivor.  Every sequence of received symbols is explored, and  *)
(* ties are broken in every possible way.                                  *)
(*  - Optimal: a survivor is a path of that metric, and no path at all,    *)
(*    followed by brute force, is shorter.                                 *)
(* Hence the decisions do not depend on how ties are broken, as far as the *)
(* trace specification is concerned.                                       *)
(***************************************************************************)
EXTENDS Viterbi

Range(f) == {f[i] : i \in DOMAIN f}
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y

Decls == <<
  [k |-> 1, n |-> 2, mem |-> <<2>>, fmt |-> "MSB", g |-> <<<<5, 7>>>>, fb |-> <<>>, legacy |-> 0, rsc |-> 0],
  [k |-> 1, n |-> 2, mem |-> <<1>>, fmt |-> "MSB", g |-> <<<<1, 3>>>>, fb |-> <<<<3>>>>, legacy |-> 1, rsc |-> 1],
  [k |-> 2, n |-> 2, mem |-> <<1, 0>>, fmt |-> "MSB", g |-> <<<<1, 2>>, <<0, 1>>>>, fb |-> <<>>, legacy |-> 0, rsc |-> 0] >>

CONSTANT MaxT
Trel == TLCEval([i \in DOMAIN Decls |-> TLCEval(Trellis(Machine(Decls[i])))])
Inc  == TLCEval([i \in DOMAIN Decls |-> TLCEval(Incoming(Trel[i]))])
Dist == TLCEval([a \in 0..3 |-> TLCEval([b \in 0..3 |->
          (IF a \div 2 = b \div 2 THEN 0 ELSE 1) + (IF a % 2 = b % 2 THEN 0 ELSE 1)])])

VARIABLES code, rx, metric, path
vars == <<code, rx, metric, path>>
T == Trel[code]

Init == /\ code \in DOMAIN Decls /\ rx = <<>>
        /\ metric = StartAtZero(T)
        /\ path = [s \in 0..(T.S - 1) |-> <<>>]

Next ==
  /\ Len(rx) < MaxT /\ code' = code
  /\ \E r \in 0..3 :
       LET cand == TLCEval([s \in 0..(T.S - 1) |-> {p \in Range(Inc[code][s]) : metric[p[1]] < Inf}])
           m == Relax(T, Inc[code], metric, Dist[r], 0..(T.I - 1))
           best == TLCEval([s \in 0..(T.S - 1) |-> {p \in cand[s] : metric[p[1]] + Dist[r][T.out[p[1]][p[2]]] = m[s]}])
       IN /\ rx' = Append(rx, r)
          /\ metric' = m
          /\ \E last \in {TRUE, FALSE} :      \* a tie is broken for the first or for the last candidate
               path' = [s \in 0..(T.S - 1) |->
                          IF best[s] = {} THEN <<>>
                          ELSE LET p == IF last THEN CHOOSE x \in best[s] : \A y \in best[s] : y[1] <= x[1]
                                        ELSE CHOOSE x \in best[s] : \A y \in best[s] : y[1] >= x[1]
                               IN Append(path[p[1]], p[2])]

Spec == Init /\ [][Next]_vars

\* End state and weight of an input sequence, followed from state zero.
RECURSIVE Follow(_, _, _, _)
Follow(u, i, s, w) ==
  IF i > Len(u) THEN <<s, w>>
  ELSE Follow(u, i + 1, T.nst[s][u[i]], w + Dist[rx[i]][T.out[s][u[i]]])

Optimal ==
  LET all == {Follow(u, 1, 0, 0) : u \in [1..Len(rx) -> 0..(T.I - 1)]} IN
  \A s \in 0..(T.S - 1) :
    LET w == {a[2] : a \in {b \in all : b[1] = s}} IN
    /\ (w = {}) <=> (metric[s] = Inf)
    /\ w # {} => metric[s] = MinSet(w) /\ Follow(path[s], 1, 0, 0) = <<s, metric[s]>>
=============================================================================
