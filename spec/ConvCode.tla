------------------------------ MODULE ConvCode ------------------------------
(***************************************************************************)
(* The convolutional encoder as a shift-register machine.                  *)
(*                                                                         *)
(* A code declaration d (what a user hands to Trellis) is a record         *)
(*   k, n      inputs and outputs                                          *)
(*   mem       memory (number of delay elements) of each input chain       *)
(*   fmt       "MSB" | "LSB" | "Matlab": how integers denote polynomials   *)
(*   g         k x n generator polynomials                                 *)
(*   fb        k x k feedback polynomials, or <<>> (none)                  *)
(*   legacy    0, or 1: one integer feedback polynomial fb[1][1] (k = 1)   *)
(*   rsc       1: declared recursive systematic                            *)
(*                                                                         *)
(* The state is one register per chain, newest element first; a clock tick *)
(* reads one bit per chain, emits n bits and shifts the feedback sum in.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Bit(p, i) == (p \div (2^i)) % 2

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

\* (TLC does not cache constants whose definition contains CHOOSE, hence the recursion)
RECURSIVE MaxOf(_)
MaxOf(s) == IF Len(s) = 1 THEN s[1] ELSE LET m == MaxOf(Tail(s)) IN IF s[1] > m THEN s[1] ELSE m

TotalMem(d) == SumSeq(d.mem)

\* Coefficient of D^i in polynomial p under the declared format.
Coef(d, p, i) ==
  IF d.fmt = "MSB" THEN Bit(p, i) ELSE Bit(p, MaxOf(d.mem) - i)

(***************************************************************************)
(* The machine of a declaration: m.G[c][j][i+1] is the weight of D^i of    *)
(* chain c in output j, m.F[t][c][i+1] its weight in the new element of    *)
(* chain t.  D^0 of a chain is the bit just read.  Legacy integer feedback *)
(* denotes polynomials most significant coefficient = D^0 and its outputs  *)
(* see the register input after feedback, the classical recursive encoder. *)
(***************************************************************************)
LegacyCoef(d, p, i) == Bit(p, d.mem[1] - i)
LegacyGen(d, j) == IF d.rsc = 1 /\ j = 1 THEN d.fb[1][1] ELSE d.g[1][j]

Machine(d) ==
  [k |-> d.k, n |-> d.n, mem |-> d.mem,
   G |-> IF d.legacy = 1
         THEN << [j \in 1..d.n |-> [i \in 1..(d.mem[1] + 1) |->
                  IF i = 1 THEN LegacyCoef(d, LegacyGen(d, j), 0)
                  ELSE (LegacyCoef(d, LegacyGen(d, j), i - 1) +
                        LegacyCoef(d, LegacyGen(d, j), 0) * LegacyCoef(d, d.fb[1][1], i - 1)) % 2]] >>
         ELSE [c \in 1..d.k |-> [j \in 1..d.n |-> [i \in 1..(d.mem[c] + 1) |-> Coef(d, d.g[c][j], i - 1)]]],
   F |-> IF d.legacy = 1
         THEN << << [i \in 1..(d.mem[1] + 1) |-> IF i = 1 THEN 1 ELSE LegacyCoef(d, d.fb[1][1], i - 1)] >> >>
         ELSE [t \in 1..d.k |-> [c \in 1..d.k |-> [i \in 1..(d.mem[c] + 1) |->
                  IF d.fb = <<>> THEN (IF t = c /\ i = 1 THEN 1 ELSE 0)
                  ELSE Coef(d, d.fb[t][c], i - 1)]]]]

\* Registers and inputs
ZeroRegs(m) == [c \in 1..m.k |-> [i \in 1..m.mem[c] |-> 0]]

\* Contents of chain c seen by the taps: the bit read, then the delay elements.
Taps(r, u, c) == <<u[c]>> \o r[c]

RECURSIVE Dot(_, _, _)
Dot(a, b, i) == IF i = 0 THEN 0 ELSE a[i] * b[i] + Dot(a, b, i - 1)

RECURSIVE DotChains(_, _, _, _)
DotChains(W, r, u, c) ==
  IF c = 0 THEN 0 ELSE LET t == Taps(r, u, c) IN Dot(W[c], t, Len(t)) + DotChains(W, r, u, c - 1)

ClockOut(m, r, u) ==
  [j \in 1..m.n |-> DotChains([c \in 1..m.k |-> m.G[c][j]], r, u, m.k) % 2]

ClockNext(m, r, u) ==
  [t \in 1..m.k |->
     IF m.mem[t] = 0 THEN <<>>
     ELSE SubSeq(<<DotChains(m.F[t], r, u, m.k) % 2>> \o r[t], 1, m.mem[t])]

(***************************************************************************)
(* Numbering of states, inputs and outputs: chain 1 first, newest element  *)
(* first, most significant bit first.                                      *)
(***************************************************************************)
RECURSIVE BitsToInt(_)
BitsToInt(s) == IF s = <<>> THEN 0 ELSE 2 * BitsToInt(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)]

IntToBits(v, w) == [i \in 1..w |-> Bit(v, w - i)]

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

StateNr(r) == BitsToInt(Flatten(r))

RECURSIVE RegsOf(_, _, _)
RegsOf(m, bits, c) ==
  IF c > m.k THEN <<>>
  ELSE <<SubSeq(bits, 1, m.mem[c])>> \o RegsOf(m, SubSeq(bits, m.mem[c] + 1, Len(bits)), c + 1)

StateRegs(m, s) == RegsOf(m, IntToBits(s, SumSeq(m.mem)), 1)

NumStates(m) == 2^SumSeq(m.mem)
NumInputs(m) == 2^m.k

\* The trellis: successor and output number of every state and input.
Trellis(m) ==
  [k |-> m.k, n |-> m.n, S |-> NumStates(m), I |-> NumInputs(m), tm |-> SumSeq(m.mem), mem |-> m.mem,
   nst |-> TLCEval([s \in 0..(NumStates(m) - 1) |-> TLCEval([u \in 0..(NumInputs(m) - 1) |->
              StateNr(ClockNext(m, StateRegs(m, s), IntToBits(u, m.k)))])]),
   out |-> TLCEval([s \in 0..(NumStates(m) - 1) |-> TLCEval([u \in 0..(NumInputs(m) - 1) |->
              BitsToInt(ClockOut(m, StateRegs(m, s), IntToBits(u, m.k)))])])]

RECURSIVE PopCount(_)
PopCount(v) == IF v = 0 THEN 0 ELSE (v % 2) + PopCount(v \div 2)

\* Number of trellis steps of the tail of a terminated word: a feedforward encoder is flushed by null inputs, the
\* tail of a recursive one is as long as its total memory.
TailSteps(d) == IF d.rsc = 1 THEN TotalMem(d) ELSE MaxOf(d.mem)
=============================================================================
