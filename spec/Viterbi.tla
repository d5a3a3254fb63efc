------------------------------- MODULE Viterbi ------------------------------
(***************************************************************************)
(* Weights of trellis paths.  A distance vector gives for every state the  *)
(* least weight of a path from state zero to it (Inf: none).               *)
(***************************************************************************)
EXTENDS ConvCode

Inf == 1000000000
Min2(a, b) == IF a < b THEN a ELSE b

\* Incoming branches <<state, input>> of every state.
Branches(t) == [i \in 1..(t.S * t.I) |-> <<(i - 1) \div t.I, (i - 1) % t.I>>]
Incoming(t) ==
  TLCEval([s \in 0..(t.S - 1) |-> TLCEval(SelectSeq(Branches(t), LAMBDA p : t.nst[p[1]][p[2]] = s))])

\* Bits of every output number, first output first.
OutBits(t) == TLCEval([o \in 0..(2^t.n - 1) |-> IntToBits(o, t.n)])

StartAtZero(t) == [s \in 0..(t.S - 1) |-> IF s = 0 THEN 0 ELSE Inf]

\* Least weight over the branches in[1..i] from the distances d, for the admissible inputs.
RECURSIVE BestBranch(_, _, _, _, _, _)
BestBranch(t, in, d, cost, inputs, i) ==
  IF i = 0 THEN Inf
  ELSE LET p == in[i]
           b == BestBranch(t, in, d, cost, inputs, i - 1)
       IN IF d[p[1]] = Inf \/ p[2] \notin inputs THEN b ELSE Min2(b, d[p[1]] + cost[t.out[p[1]][p[2]]])

\* cost[o] is the weight of output number o in this step.
Relax(t, inc, d, cost, inputs) ==
  TLCEval([s \in 0..(t.S - 1) |-> BestBranch(t, inc[s], d, cost, inputs, Len(inc[s]))])

RECURSIVE LeastTo(_, _)
LeastTo(d, s) == IF s < 0 THEN Inf ELSE Min2(d[s], LeastTo(d, s - 1))
Least(d) == LeastTo(d, Cardinality(DOMAIN d) - 1)

(***************************************************************************)
(* The cost of output bit b when r is received.  Received values are       *)
(* integers: r times a common scale for soft and unquantized decoding.     *)
(*  hard         Hamming distance                                          *)
(*  soft         negative log-likelihood of an LLR r (positive favours 1), *)
(*               clipped to 500; up to a term that does not depend on b    *)
(*  unquantized  squared distance to 2b - 1, up to a term free of b, / 2   *)
(***************************************************************************)
Clip(r, m) == IF r > m THEN m ELSE IF r < -m THEN -m ELSE r

BitCost(type, scale, r, b) ==
  CASE type = "hard"        -> IF r = b THEN 0 ELSE 1
    [] type = "soft"        -> -(Clip(r, 500 * scale) * b)
    [] type = "unquantized" -> -(r * (2 * b - 1))

\* After the received word the encoder is taken to emit zeros; LLRs are neutral there.
Padding(type, scale) ==
  CASE type = "hard" -> 0 [] type = "soft" -> 0 [] type = "unquantized" -> -scale

RECURSIVE SumCost(_, _, _, _, _)
SumCost(type, scale, r, bits, i) ==
  IF i = 0 THEN 0 ELSE BitCost(type, scale, r[i], bits[i]) + SumCost(type, scale, r, bits, i - 1)

StepCost(t, ob, type, scale, r) ==
  TLCEval([o \in 0..(2^t.n - 1) |-> SumCost(type, scale, r, ob[o], t.n)])

\* Trellis steps of the decoder for L decoded bits: received, then padded.
ReceivedSteps(t, L) == L \div t.k
TotalSteps(t, L) ==
  LET a == (L + t.tm) \div t.k
      b == (L \div t.k) + 1
  IN (IF a > b THEN a ELSE b) - 1

(***************************************************************************)
(* Distances: paths that leave state zero in their first step and have not *)
(* come back (vector), and the least weight of those that came back.       *)
(***************************************************************************)
WeightCost(t) == TLCEval([o \in 0..(2^t.n - 1) |-> PopCount(o)])

LeaveZero(t, wc) ==
  TLCEval([s \in 0..(t.S - 1) |->
     BestBranch(t, SelectSeq([u \in 1..t.I |-> <<0, u - 1>>],
                             LAMBDA p : t.nst[0][p[2]] = s /\ (s # 0 \/ p[2] # 0)),
                StartAtZero(t), wc, 0..(t.I - 1),
                Len(SelectSeq([u \in 1..t.I |-> <<0, u - 1>>],
                             LAMBDA p : t.nst[0][p[2]] = s /\ (s # 0 \/ p[2] # 0))))])

RECURSIVE Away(_, _, _, _, _, _)
Away(t, wc, inc, d, back, steps) ==
  LET b == Min2(back, d[0])
      a == TLCEval([d EXCEPT ![0] = Inf])
  IN IF steps = 1 THEN <<Least(a), b>>
     ELSE Away(t, wc, inc, TLCEval(Relax(t, inc, a, wc, 0..(t.I - 1))), b, steps - 1)

\* <<least weight of an unmerged path of that many steps, least weight of a merged one>>
\* (wc: the weights of the output numbers, WeightCost(t))
Separation(t, wc, inc, steps) == Away(t, wc, inc, LeaveZero(t, wc), Inf, steps)

\* The inputs of a step can be told apart by its outputs.
DelayFree(t) == \A u \in 1..(t.I - 1) : t.out[0][u] # 0
=============================================================================
