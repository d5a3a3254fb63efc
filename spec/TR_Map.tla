------------------------------- MODULE TR_Map -------------------------------
(***************************************************************************)
(* Trace specification of MAP decoding (C07).                              *)
(*                                                                         *)
(* Received symbols and priors are powers of two by construction: the      *)
(* driver picks integers a, b, p and hands the decoder symbols             *)
(* a * nv * ln(2) / 2 and priors p * ln(2), so that the likelihood ratio   *)
(* of the first output being 1 is 2^a, of the second 2^b, and the prior    *)
(* odds 2^p.  Path weights are then integers and the a-posteriori odds of  *)
(* every bit an exact quotient of sums over all paths.                     *)
(***************************************************************************)
EXTENDS ConvCode, BigNat, TraceKit

VARIABLES l, fails, done
vars == <<l, fails, done>>

Codes  == Trace[1].codes
NCodes == Len(Codes)
Trel   == TLCEval([i \in 1..NCodes |-> TLCEval(Trellis(Machine(Codes[i])))])

\* Exponent of the weight of a bit with odds 2^a.
Expo(a, b) == IF a >= 0 THEN a * b ELSE (-a) * (1 - b)

\* Exponent of branch (state s, input u) at time t.
Gamma(e, tr, t, s, u) ==
  LET o == tr.out[s][u] IN Expo(e.a[t], o \div 2) + Expo(e.b[t], o % 2) + Expo(e.p[t], u)

RECURSIVE AlphaIn(_, _, _, _, _, _)
AlphaIn(e, tr, prev, t, s, q) ==      \* sum over the branches number 0..q into state s
  IF q < 0 THEN <<>>
  ELSE LET ps == q \div 2
           u  == q % 2
           r  == AlphaIn(e, tr, prev, t, s, q - 1)
       IN IF tr.nst[ps][u] # s THEN r ELSE BnAdd(r, BnMulPow2(prev[ps], Gamma(e, tr, t, ps, u)))

\* Forward weights: sequence of vectors, element t is the vector before symbol t.
RECURSIVE Forward(_, _, _, _)
Forward(e, tr, t, acc) ==
  IF t > Len(e.a) THEN acc
  ELSE Forward(e, tr, t + 1,
               Append(acc, TLCEval([s \in 0..(tr.S - 1) |-> AlphaIn(e, tr, acc[t], t, s, 2 * tr.S - 1)])))

\* Backward weights: element 1 is the vector after the last symbol.
RECURSIVE Backward(_, _, _, _)
Backward(e, tr, t, acc) ==
  IF t = 0 THEN acc
  ELSE Backward(e, tr, t - 1,
         Append(acc, TLCEval([s \in 0..(tr.S - 1) |->
            BnAdd(BnMulPow2(acc[Len(acc)][tr.nst[s][0]], Gamma(e, tr, t, s, 0)),
                  BnMulPow2(acc[Len(acc)][tr.nst[s][1]], Gamma(e, tr, t, s, 1)))])))

RECURSIVE Total(_, _, _, _, _, _, _)
Total(e, tr, al, be, t, u, s) ==      \* weight of all paths with input u at time t, through states 0..s
  IF s < 0 THEN <<>>
  ELSE BnAdd(Total(e, tr, al, be, t, u, s - 1),
             BnMulPow2(BnMul(al[s], be[tr.nst[s][u]]), Gamma(e, tr, t, s, u)))

VerifyMap(e) ==
  IF Raised(e) THEN <<"decoding-raised">>
  ELSE
  LET tr == Trel[e.code]
      n  == Len(e.a)
      al == TLCEval(Forward(e, tr, 1, <<[s \in 0..(tr.S - 1) |-> IF s = 0 THEN <<1>> ELSE <<>>]>>))
      be == TLCEval(Backward(e, tr, n, <<[s \in 0..(tr.S - 1) |-> <<1>>]>>))
      N(t, u) == Total(e, tr, al[t], be[n + 1 - t], t, u, tr.S - 1)
  IN Clause(Len(e.odds) = n /\ Len(e.bits) = n /\ Len(e.odds2) = n, "length")
  \o Clause(Len(e.odds) = n => \A t \in 1..n : FloatNear(e.odds[t], N(t, 1), N(t, 0)), "a-posteriori-ratio")
  \o Clause(e.samellr, "mode-changes-llr")
  \o Clause(\A t \in 1..Len(e.bits) : e.bits[t] = (IF e.positive[t] = 1 THEN 1 ELSE 0), "decoded-bit")
  \o Clause(e.unchanged, "arguments-modified")

Verify(e) ==
  CASE e.ev = "codes" -> <<>>
    [] e.ev = "map"   -> VerifyMap(e)

TraceInit == l = Start /\ fails = <<>> /\ done = FALSE
TraceNext ==
  \/ /\ l <= NTrace /\ fails' = AddFails(fails, l, Verify(Trace[l])) /\ l' = l + 1 /\ done' = done
  \/ l > NTrace /\ ~done /\ done' = TRUE /\ Verdict(fails) /\ UNCHANGED <<l, fails>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
