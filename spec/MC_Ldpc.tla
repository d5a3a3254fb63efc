------------------------------- MODULE MC_Ldpc ------------------------------
(***************************************************************************)
(* Design model of belief propagation: on a cycle-free graph the flooding  *)
(* recursion reaches the exact max-marginals (min-sum) and the exact       *)
(* posterior odds (sum-product), a codeword is a fixed point, and on       *)
(* erasure inputs the known set is exactly that of peeling.                *)
(***************************************************************************)
EXTENDS Ldpc
CONSTANT MaxAbs
VARIABLES gx_graph, input, msgs, spas, total, stotal, iter, stopped
vars == <<gx_graph, input, msgs, spas, total, stotal, iter, stopped>>

ColsOf(rows, n) == [v \in 1..n |->
   LET cs == SelectSeq([c \in 1..Len(rows) |-> c], LAMBDA c : \E i \in 1..Len(rows[c]) : rows[c][i] = v)
   IN [j \in 1..Len(cs) |-> <<cs[j], CHOOSE i \in 1..Len(rows[cs[j]]) : rows[cs[j]][i] = v>>]]
Mk(rows, n) == [n |-> n, rows |-> rows, cols |-> ColsOf(rows, n)]
Trees == <<Mk(<< <<1, 2, 3>>, <<3, 4>> >>, 4), Mk(<< <<1, 2, 3>>, <<3, 4, 5>> >>, 5), Mk(<< <<1, 2>>, <<2, 3>>, <<3, 4>> >>, 4)>>
Cyclic == Mk(<< <<1, 2, 3>>, <<2, 3, 4>> >>, 4)
Graphs == Trees \o <<Cyclic>>
Rounds == 4

Init == /\ gx_graph \in 1..Len(Graphs)
        /\ input \in [1..Graphs[gx_graph].n -> (-MaxAbs)..MaxAbs]
        /\ msgs = MsaStart(Graphs[gx_graph], input) /\ spas = SpaStart(Graphs[gx_graph], input)
        /\ total = input /\ stotal = [v \in 1..Graphs[gx_graph].n |-> Pow2Odds(input[v])]
        /\ iter = 0 /\ stopped = FALSE
Gr == Graphs[gx_graph]
Word == [v \in 1..Gr.n |-> Hard(total[v])]
Step == /\ iter < Rounds /\ ~stopped
        /\ LET out == MsaCheck(Gr, msgs)
               tot == MsaTotal(Gr, input, out)
               so  == SpaCheck(Gr, spas)
           IN /\ total' = tot /\ msgs' = MsaVar(Gr, tot, out)
              /\ stotal' = SpaTotal(Gr, input, so) /\ spas' = SpaVar(Gr, input, so)
        /\ iter' = iter + 1 /\ UNCHANGED <<gx_graph, input, stopped>>
Stop == /\ ~stopped /\ IsCodeword(Gr, Word) /\ stopped' = TRUE /\ UNCHANGED <<gx_graph, input, msgs, spas, total, stotal, iter>>
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars

Words(g) == {w \in [1..g.n -> 0..1] : IsCodeword(g, w)}
RECURSIVE Cost(_, _, _)        \* agreement of the word with the LLRs: sum of llr where the bit is 0
Cost(ll, w, v) == IF v = 0 THEN 0 ELSE (IF w[v] = 0 THEN ll[v] ELSE 0) + Cost(ll, w, v - 1)
Best(g, ll, v, b) == LET S == {Cost(ll, w, g.n) : w \in {x \in Words(g) : x[v] = b}}
                     IN CHOOSE m \in S : \A y \in S : y <= m
IsTree == gx_graph <= Len(Trees)
Wellformed == GraphOK(Gr)
MaxMarginals == (IsTree /\ iter = Rounds) => \A v \in 1..Gr.n : total[v] = Best(Gr, input, v, 0) - Best(Gr, input, v, 1)

RECURSIVE SumPow(_, _)
SumPow(S, ll) == IF S = {} THEN <<>> ELSE LET w == CHOOSE x \in S : TRUE
                 IN BnAdd(SumPow(S \ {w}, ll), BnMulPow2(<<1>>, Cost(ll, w, Len(w)) + 2 * Len(w)))
Posteriors == (IsTree /\ iter = Rounds) =>
  \A v \in 1..Gr.n : BnMul(stotal[v][1], SumPow({w \in Words(Gr) : w[v] = 1}, input))
                   = BnMul(stotal[v][2], SumPow({w \in Words(Gr) : w[v] = 0}, input))
Erasure == \E s \in Words(Gr) : \A v \in 1..Gr.n : input[v] \in {0, IF s[v] = 0 THEN MaxAbs ELSE -MaxAbs}
RECURSIVE Peel(_, _)
Peel(K, r) == IF r = 0 THEN K
  ELSE Peel(K \cup {v \in 1..Gr.n : \E c \in 1..Len(Gr.rows) :
              /\ \E i \in 1..Len(Gr.rows[c]) : Gr.rows[c][i] = v
              /\ \A i \in 1..Len(Gr.rows[c]) : Gr.rows[c][i] \in K \cup {v}}, r - 1)
PeelingOK == Erasure => /\ {v \in 1..Gr.n : total[v] # 0} = Peel({v \in 1..Gr.n : input[v] # 0}, iter)
                        /\ \A v \in 1..Gr.n : Sgn(total[v]) = IF BnCmp(stotal[v][1], stotal[v][2]) = 0 THEN 0 ELSE 1 - 2 * SpaHard(stotal[v])
Fixed == (iter > 0 /\ IsTree /\ IsCodeword(Gr, [v \in 1..Gr.n |-> Hard(input[v])]) /\ \A v \in 1..Gr.n : input[v] # 0)
            => \A v \in 1..Gr.n : Hard(total[v]) = Hard(input[v])
=============================================================================
