---------------------------- MODULE MC_ConvCode -----------------------------
(***************************************************************************)
(* Design model of the convolutional encoder: over all small declarations, *)
(* two copies of the encoder are run on every pair of messages.            *)
(*  - Linear: one step from the sum of two reachable states on the sum of  *)
(*    two inputs gives the sum of the successors and outputs; by induction *)
(*    encoding is linear for messages of every length.                     *)
(*  - Controllable: the tail brings every encoder to zero within TailSteps.*)
(*  - Trellis numbering is a bijection.                                    *)
(***************************************************************************)
EXTENDS ConvCode, SequencesExt

\* Polynomials are restricted to a small set of interesting ones
Decls ==
  { [k |-> 1, n |-> 2, mem |-> <<2>>, fmt |-> f, g |-> <<<<a, b>>>>, fb |-> <<>>, legacy |-> 0, rsc |-> 0] :
      a \in 0..7, b \in {5, 7}, f \in {"MSB", "LSB"} }
  \cup
  { [k |-> 1, n |-> 2, mem |-> <<2>>, fmt |-> "MSB", g |-> <<<<1, b>>>>, fb |-> <<<<4 + f>>>>, legacy |-> 1, rsc |-> r] :
      b \in 1..7, f \in 0..3, r \in {1} }
  \cup
  { [k |-> 1, n |-> 2, mem |-> <<2>>, fmt |-> "MSB", g |-> <<<<1, b>>>>, fb |-> <<<<2 * f + 1>>>>, legacy |-> 0, rsc |-> 1] :
      b \in 1..7, f \in 0..3 }
  \cup
  { [k |-> 2, n |-> 3, mem |-> <<1, 1>>, fmt |-> "MSB", g |-> <<<<1, 0, a>>, <<0, 1, b>>>>,
      fb |-> <<<<1, 2 * x>>, <<2 * y, 3>>>>, legacy |-> 0, rsc |-> 1] : a \in 0..3, b \in 0..3, x \in 0..1, y \in 0..1 }
  \cup
  { [k |-> 2, n |-> 2, mem |-> <<2, 1>>, fmt |-> "Matlab", g |-> <<<<a, 4>>, <<6, 2>>>>, fb |-> <<>>, legacy |-> 0, rsc |-> 0] :
      a \in 0..7 }

DeclSeq == TLCEval(SetToSeq(Decls))
Machs == TLCEval([x \in 1..Len(DeclSeq) |-> TLCEval(Machine(DeclSeq[x]))])

VARIABLES code, r1, r2
vars == <<code, r1, r2>>

d == DeclSeq[code]
M == Machs[code]
Zeros(n) == [i \in 1..n |-> 0]
Words(k) == [1..k -> {0, 1}]
Add(a, b) == [i \in 1..Len(a) |-> (a[i] + b[i]) % 2]
AddRegs(a, b) == [t \in 1..Len(a) |-> Add(a[t], b[t])]

Init == code \in 1..Len(DeclSeq) /\ r1 = ZeroRegs(M) /\ r2 = ZeroRegs(M)

Next == /\ code' = code
        /\ \E u1, u2 \in Words(M.k) : r1' = ClockNext(M, r1, u1) /\ r2' = ClockNext(M, r2, u2)

Spec == Init /\ [][Next]_vars

Linear ==
  \A u1, u2 \in Words(M.k) :
    /\ ClockNext(M, AddRegs(r1, r2), Add(u1, u2)) = AddRegs(ClockNext(M, r1, u1), ClockNext(M, r2, u2))
    /\ ClockOut(M, AddRegs(r1, r2), Add(u1, u2)) = Add(ClockOut(M, r1, u1), ClockOut(M, r2, u2))

Numbering ==
  /\ StateRegs(M, StateNr(r1)) = r1
  /\ StateNr(r1) \in 0..(NumStates(M) - 1)

RECURSIVE Reach(_, _)
Reach(S, n) == IF n = 0 THEN S ELSE Reach({ClockNext(M, r, u) : r \in S, u \in Words(M.k)}, n - 1)
RECURSIVE Flush(_, _)
Flush(r, n) == IF n = 0 THEN r ELSE Flush(ClockNext(M, r, Zeros(M.k)), n - 1)

Terminates ==
  IF d.rsc = 1 THEN ZeroRegs(M) \in Reach({r1}, TailSteps(d))
  ELSE Flush(r1, TailSteps(d)) = ZeroRegs(M)

\* A recursive systematic encoder shows its input on the first output.
Systematic == (d.rsc = 1 /\ d.k = 1) => \A u \in 0..1 : ClockOut(M, r1, <<u>>)[1] = u
=============================================================================
