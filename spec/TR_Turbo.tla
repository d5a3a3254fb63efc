------------------------------ MODULE TR_Turbo ------------------------------
(***************************************************************************)
(* Trace specification of the turbo codec (C06).                           *)
(*                                                                         *)
(* Encoder: three streams from two shift-register machines.                *)
(* Decoder: the iteration schedule as a state machine, one action per half *)
(* iteration.  Likelihoods are powers of two (see TR_Map), so extrinsic    *)
(* information is an exact pair <<weight of 1, weight of 0>> of naturals.  *)
(***************************************************************************)
EXTENDS ConvCode, BigNat, TraceKit

VARIABLES l, fails, done, half, prior, outp
vars == <<l, fails, done, half, prior, outp>>

Codes  == Trace[1].codes
NCodes == Len(Codes)
Mach   == TLCEval([i \in 1..NCodes |-> TLCEval(Machine(Codes[i]))])
Trel   == TLCEval([i \in 1..NCodes |-> TLCEval(Trellis(Mach[i]))])

Perm(x, p) == [i \in 1..Len(p) |-> x[p[i] + 1]]
UnPerm(y, p) == [j \in 1..Len(p) |-> LET i == CHOOSE k \in 1..Len(p) : p[k] + 1 = j IN y[i]]
IsPerm(p) == {p[i] : i \in 1..Len(p)} = 0..(Len(p) - 1)

RECURSIVE Parity(_, _, _, _)
Parity(tr, msg, i, s) ==
  IF i > Len(msg) THEN <<>> ELSE <<tr.out[s][msg[i]] % 2>> \o Parity(tr, msg, i + 1, tr.nst[s][msg[i]])

VerifyEnc(e) ==
  IF Raised(e) THEN <<"encoding-raised">>
  ELSE Clause(IsPerm(e.p), "not-a-permutation")
    \o Clause(e.s1 = e.msg, "systematic-stream")
    \o Clause(e.s2 = Parity(Trel[e.code1], e.msg, 1, 0), "first-parity")
    \o Clause(e.s3 = Parity(Trel[e.code2], Perm(e.msg, e.p), 1, 0), "second-parity")
    \o Clause(e.unchanged, "arguments-modified")

VerifyNoiseless(e) ==
  IF Raised(e) THEN <<"decoding-raised">> ELSE Clause(e.out = e.msg, "noiseless-decoding") \o Clause(e.unchanged, "arguments-modified")

\* The library's decoder against its own component decoder driven by the schedule of this specification.
VerifySchedule(e) ==
  IF Raised(e) THEN <<"decoding-raised">>
  ELSE Clause(e.out = e.composed, "schedule") \o Clause(e.unchanged, "arguments-modified")

---------------------------------------------------------------------------
(* Exact component decoder: a, b likelihood exponents, pr priors as pairs. *)
Expo(a, b) == IF a >= 0 THEN a * b ELSE (-a) * (1 - b)
Chan(tr, a, b, t, s, u) == LET o == tr.out[s][u] IN Expo(a[t], o \div 2) + Expo(b[t], o % 2)
PriorOf(pr, t, u) == IF u = 1 THEN pr[t][1] ELSE pr[t][2]

RECURSIVE AlphaIn(_, _, _, _, _, _, _, _)
AlphaIn(tr, a, b, pr, prev, t, s, q) ==
  IF q < 0 THEN <<>>
  ELSE LET ps == q \div 2
           u  == q % 2
           r  == AlphaIn(tr, a, b, pr, prev, t, s, q - 1)
       IN IF tr.nst[ps][u] # s THEN r
          ELSE BnAdd(r, BnMul(BnMulPow2(prev[ps], Chan(tr, a, b, t, ps, u)), PriorOf(pr, t, u)))

RECURSIVE Forward(_, _, _, _, _, _)
Forward(tr, a, b, pr, t, acc) ==
  IF t > Len(a) THEN acc
  ELSE Forward(tr, a, b, pr, t + 1,
         Append(acc, TLCEval([s \in 0..(tr.S - 1) |-> AlphaIn(tr, a, b, pr, acc[t], t, s, 2 * tr.S - 1)])))

RECURSIVE Backward(_, _, _, _, _, _)
Backward(tr, a, b, pr, t, acc) ==
  IF t = 0 THEN acc
  ELSE Backward(tr, a, b, pr, t - 1,
         Append(acc, TLCEval([s \in 0..(tr.S - 1) |->
            BnAdd(BnMul(BnMulPow2(acc[Len(acc)][tr.nst[s][0]], Chan(tr, a, b, t, s, 0)), PriorOf(pr, t, 0)),
                  BnMul(BnMulPow2(acc[Len(acc)][tr.nst[s][1]], Chan(tr, a, b, t, s, 1)), PriorOf(pr, t, 1)))])))

RECURSIVE Total(_, _, _, _, _, _, _, _)
Total(tr, a, b, al, be, t, u, s) ==
  IF s < 0 THEN <<>>
  ELSE BnAdd(Total(tr, a, b, al, be, t, u, s - 1),
             BnMulPow2(BnMul(al[s], be[tr.nst[s][u]]), Chan(tr, a, b, t, s, u)))

\* Extrinsic pairs: everything but the bit's own prior.
Extrinsic(tr, a, b, pr) ==
  LET n  == Len(a)
      al == TLCEval(Forward(tr, a, b, pr, 1, <<[s \in 0..(tr.S - 1) |-> IF s = 0 THEN <<1>> ELSE <<>>]>>))
      be == TLCEval(Backward(tr, a, b, pr, n, <<[s \in 0..(tr.S - 1) |-> <<1>>]>>))
  IN TLCEval([t \in 1..n |-> TLCEval(<<Total(tr, a, b, al[t], be[n + 1 - t], t, 1, tr.S - 1),
                                      Total(tr, a, b, al[t], be[n + 1 - t], t, 0, tr.S - 1)>>)])

Pow2Pair(x) == IF x >= 0 THEN <<BnMulPow2(<<1>>, x), <<1>>>> ELSE << <<1>>, BnMulPow2(<<1>>, -x)>>

\* Bits the pairs decide; -1 where they are too close to call in floating point.
Decide(x) ==
  [t \in 1..Len(x) |->
     LET d == BnDiff(x[t][1], x[t][2]) IN
     IF BnCmp(BnMul(d, BnGiga), x[t][1]) < 0 THEN -1 ELSE IF BnCmp(x[t][1], x[t][2]) > 0 THEN 1 ELSE 0]

TurboBegin ==
  /\ half = 0 /\ Trace[l].ev = "tex"
  /\ LET e == Trace[l] IN
     IF Raised(e) \/ Len(e.out) # Len(e.a) \/ ~IsPerm(e.p)
     THEN fails' = AddFails(fails, l, <<"decoding-raised">>) /\ l' = l + 1 /\ UNCHANGED <<half, prior, outp>>
     ELSE /\ half' = 1 /\ prior' = [t \in 1..Len(e.a) |-> Pow2Pair(e.l[t])] /\ UNCHANGED <<l, fails, outp>>

\* Odd half iterations: first decoder, its extrinsic information goes interleaved to the second.
FirstDecoder ==
  /\ half > 0 /\ half % 2 = 1 /\ half < 2 * Trace[l].iter
  /\ LET e == Trace[l] IN prior' = Perm(Extrinsic(Trel[e.code1], e.a, e.b1, prior), e.p)
  /\ half' = half + 1 /\ UNCHANGED <<l, fails, outp>>

\* Even half iterations: second decoder, de-interleaved back; the last one decides.
SecondDecoder ==
  /\ half > 0 /\ half % 2 = 0 /\ half <= 2 * Trace[l].iter
  /\ LET e  == Trace[l]
         ex == Extrinsic(Trel[e.code2], Perm(e.a, e.p), e.b2, prior)
     IN /\ prior' = UnPerm(ex, e.p)
        /\ outp' = UnPerm(Decide([t \in 1..Len(ex) |-> <<BnMul(ex[t][1], prior[t][1]), BnMul(ex[t][2], prior[t][2])>>]), e.p)
  /\ half' = half + 1 /\ UNCHANGED <<l, fails>>

TurboEnd ==
  /\ half > 0 /\ half > 2 * Trace[l].iter
  /\ fails' = AddFails(fails, l, Clause(\A t \in 1..Len(outp) : outp[t] # -1 => Trace[l].out[t] = outp[t], "iterations")
                              \o Clause(Trace[l].unchanged, "arguments-modified"))
  /\ l' = l + 1 /\ half' = 0 /\ prior' = <<>> /\ outp' = <<>>

Verify(e) ==
  CASE e.ev = "codes" -> <<>>
    [] e.ev = "tenc"  -> VerifyEnc(e)
    [] e.ev = "tnl"   -> VerifyNoiseless(e)
    [] e.ev = "tsch"  -> VerifySchedule(e)

Call ==
  /\ half = 0 /\ Trace[l].ev # "tex"
  /\ fails' = AddFails(fails, l, Verify(Trace[l])) /\ l' = l + 1 /\ UNCHANGED <<half, prior, outp>>

TraceInit == l = Start /\ fails = <<>> /\ done = FALSE /\ half = 0 /\ prior = <<>> /\ outp = <<>>
TraceNext ==
  \/ l <= NTrace /\ done' = done /\ (Call \/ TurboBegin \/ FirstDecoder \/ SecondDecoder \/ TurboEnd)
  \/ l > NTrace /\ ~done /\ done' = TRUE /\ Verdict(fails) /\ UNCHANGED <<l, fails, half, prior, outp>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
