------------------------------ MODULE MC_Window -----------------------------
(***************************************************************************)
(* Design model of decoding with a finite traceback window D.  The zero    *)
(* word is sent (no loss: codes are linear, see MC_ConvCode), up to `budget'*)
(* bits are inverted anywhere, and at every step t >= D - 1 the oldest     *)
(* input in the window of SOME best survivor is output.  As long as twice  *)
(* the number of errors is below the separation of paths over the window,  *)
(* every decision is right: the error-correction clause of C05.            *)
(***************************************************************************)
EXTENDS Viterbi

Range(f) == {f[i] : i \in DOMAIN f}

Decls == <<
  [k |-> 1, n |-> 2, mem |-> <<2>>, fmt |-> "MSB", g |-> <<<<5, 7>>>>, fb |-> <<>>, legacy |-> 0, rsc |-> 0],
  [k |-> 1, n |-> 2, mem |-> <<2>>, fmt |-> "MSB", g |-> <<<<7, 5>>>>, fb |-> <<<<7>>>>, legacy |-> 1, rsc |-> 1],
  [k |-> 1, n |-> 2, mem |-> <<1>>, fmt |-> "MSB", g |-> <<<<1, 2>>>>, fb |-> <<>>, legacy |-> 0, rsc |-> 0],
  [k |-> 2, n |-> 3, mem |-> <<1, 1>>, fmt |-> "MSB", g |-> <<<<1, 0, 3>>, <<0, 1, 2>>>>, fb |-> <<>>, legacy |-> 0, rsc |-> 0] >>

CONSTANTS MaxT, Depths
Trel == TLCEval([i \in DOMAIN Decls |-> TLCEval(Trellis(Machine(Decls[i])))])
Inc  == TLCEval([i \in DOMAIN Decls |-> TLCEval(Incoming(Trel[i]))])
Cost == TLCEval([i \in DOMAIN Decls |-> TLCEval([r \in 0..(2^Trel[i].n - 1) |-> TLCEval(
          [o \in 0..(2^Trel[i].n - 1) |-> SumCost("hard", 1, IntToBits(r, Trel[i].n), IntToBits(o, Trel[i].n), Trel[i].n)])])])

\* surv[s]: the inputs in the window of the survivors of s (all of them: ties are kept)
VARIABLES code, window, time, errs, metric, surv, out
vars == <<code, window, time, errs, metric, surv, out>>
T == Trel[code]

BudgetOf == TLCEval([i \in DOMAIN Decls |-> TLCEval([dd \in Depths |->
              LET s == Separation(Trel[i], WeightCost(Trel[i]), Inc[i], dd - 1) IN (Min2(s[1], s[2]) - 1) \div 2])])

Init == /\ code \in DOMAIN Decls /\ window \in Depths /\ time = 0 /\ errs = 0 /\ out = {}
        /\ metric = StartAtZero(T)
        /\ surv = [s \in 0..(T.S - 1) |-> IF s = 0 THEN {<<>>} ELSE {}]

Slide(w) == IF Len(w) > window - 1 THEN Tail(w) ELSE w

Next ==
  /\ time < MaxT /\ time' = time + 1 /\ UNCHANGED <<code, window>>
  /\ \E r \in 0..(2^T.n - 1) :
       LET m == Relax(T, Inc[code], metric, Cost[code][r], 0..(T.I - 1))
           sv == TLCEval([s \in 0..(T.S - 1) |->
                    UNION { {Slide(Append(w, p[2])) : w \in surv[p[1]]} :
                            p \in {q \in Range(Inc[code][s]) : metric[q[1]] < Inf /\ metric[q[1]] + Cost[code][r][T.out[q[1]][q[2]]] = m[s]} }])
       IN /\ errs' = errs + PopCount(r) /\ errs' <= BudgetOf[code][window]
          /\ metric' = m /\ surv' = sv
          /\ out' = IF time' >= window - 1
                    THEN {w[1] : w \in UNION {sv[s] : s \in {x \in 0..(T.S - 1) : m[x] = Least(m)}}}
                    ELSE {}

Spec == Init /\ [][Next]_vars

Right == out \subseteq {0}
=============================================================================
