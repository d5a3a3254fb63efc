------------------------------- MODULE TR_Vit -------------------------------
(***************************************************************************)
(* Trace specification of Viterbi decoding (C04, C05).                     *)
(*                                                                         *)
(* "ml" events (C04): the decoder run is replayed step by step with two    *)
(* distance vectors, one over all trellis paths and one over the paths     *)
(* that follow the decoded inputs; they must end equally short.            *)
(* "inv" events (C05): the decoded word must be the one that was sent.     *)
(***************************************************************************)
EXTENDS Viterbi, TraceKit

VARIABLES l, fails, done, pos, da, dp
vars == <<l, fails, done, pos, da, dp>>

Codes  == Trace[1].codes
NCodes == Len(Codes)
Mach   == TLCEval([i \in 1..NCodes |-> TLCEval(Machine(Codes[i]))])
Trel   == TLCEval([i \in 1..NCodes |-> TLCEval(Trellis(Mach[i]))])
Inc    == TLCEval([i \in 1..NCodes |-> TLCEval(Incoming(Trel[i]))])
WCost  == TLCEval([i \in 1..NCodes |-> WeightCost(Trel[i])])
OBits  == TLCEval([i \in 1..NCodes |-> TLCEval(OutBits(Trel[i]))])

IsBits(s) == \A i \in 1..Len(s) : s[i] \in {0, 1}

---------------------------------------------------------------------------
(* C04 *)
LBits(e) == (Len(e.r) \div Trel[e.code].n) * Trel[e.code].k
Depth(e) == IF e.tbd = 0 THEN 5 * Trel[e.code].tm ELSE e.tbd

MlHead(e) ==
  IF Raised(e) THEN <<"decoding-raised">>
  ELSE Clause(Depth(e) > TotalSteps(Trel[e.code], LBits(e)), "DRIVER-window-too-short")
    \o Clause(Len(e.out) = LBits(e), "decoded-length")
    \o Clause(IsBits(e.out), "not-bits")
    \o Clause(e.unchanged, "arguments-modified")

MlBegin ==
  /\ pos = 0 /\ Trace[l].ev = "ml"
  /\ LET e == Trace[l]
         cl == MlHead(e)
     IN IF cl # <<>>
        THEN fails' = AddFails(fails, l, cl) /\ l' = l + 1 /\ UNCHANGED <<pos, da, dp>>
        ELSE /\ pos' = 1 /\ UNCHANGED <<l, fails>>
             /\ da' = StartAtZero(Trel[e.code]) /\ dp' = StartAtZero(Trel[e.code])

MlStep ==
  /\ pos > 0 /\ pos <= TotalSteps(Trel[Trace[l].code], LBits(Trace[l]))
  /\ LET e    == Trace[l]
         t    == Trel[e.code]
         rec  == pos <= ReceivedSteps(t, LBits(e))
         r    == IF rec THEN SubSeq(e.r, (pos - 1) * t.n + 1, pos * t.n)
                 ELSE [i \in 1..t.n |-> Padding(e.type, e.scale)]
         cost == TLCEval(StepCost(t, OBits[e.code], e.type, e.scale, r))
         u    == BitsToInt(SubSeq(e.out, (pos - 1) * t.k + 1, pos * t.k))
     IN /\ da' = Relax(t, Inc[e.code], da, cost, 0..(t.I - 1))
        /\ dp' = Relax(t, Inc[e.code], dp, cost, IF rec THEN {u} ELSE 0..(t.I - 1))
  /\ pos' = pos + 1 /\ UNCHANGED <<l, fails>>

MlEnd ==
  /\ pos > 0 /\ pos > TotalSteps(Trel[Trace[l].code], LBits(Trace[l]))
  /\ fails' = AddFails(fails, l, Clause(Least(dp) = Least(da), "not-maximum-likelihood"))
  /\ l' = l + 1 /\ pos' = 0 /\ da' = <<>> /\ dp' = <<>>

---------------------------------------------------------------------------
(* C05: msg was encoded (sent is the result), nerr bits of it were inverted. *)
RECURSIVE Run(_, _, _, _)
Run(t, msg, i, s) ==     \* outputs of the machine from state s, over the symbols of msg from symbol i
  IF i * t.k > Len(msg) THEN <<>>
  ELSE LET u == BitsToInt(SubSeq(msg, (i - 1) * t.k + 1, i * t.k)) IN
       IntToBits(t.out[s][u], t.n) \o Run(t, msg, i + 1, t.nst[s][u])

\* Enough separation between the sent path and the others, in the window and at the end.
Sep(e) ==
  LET t == Trel[e.code]
      L == (Len(e.sent) \div t.n) * t.k
      w == Separation(t, WCost[e.code], Inc[e.code], Depth(e) - 1)
      x == Separation(t, WCost[e.code], Inc[e.code], TailSteps(Codes[e.code]) + 1 + TotalSteps(t, L) - ReceivedSteps(t, L))
      dfree == Separation(t, WCost[e.code], Inc[e.code], 60)[2]
  IN Min2(dfree, Min2(w[1], x[1])) > 2 * e.nerr

VerifyInv(e) ==
  IF Raised(e) THEN <<"decoding-raised">>
  ELSE LET t == Trel[e.code]
           L == (Len(e.sent) \div t.n) * t.k
       IN Clause(DelayFree(t), "DRIVER-not-delay-free")
       \o Clause(e.term # "cont" \/ e.type = "soft", "DRIVER-unterminated")
       \o Clause(Depth(e) >= 5 * t.tm, "DRIVER-depth")
       \o Clause(e.nerr > 0 => e.term = "term" /\ e.type # "soft" /\ Sep(e), "DRIVER-too-many-errors")
       \o Clause(Len(e.out) = L, "decoded-length")
       \o Clause(IsBits(e.out), "not-bits")
       \o Clause(Len(e.out) = L => SubSeq(e.out, 1, Len(e.msg)) = e.msg, "message-changed")
       \o Clause((e.nerr = 0 /\ Len(e.out) = L /\ IsBits(e.out)) => Run(t, e.out, 1, 0) = e.sent, "tail-changed")
       \o Clause(e.unchanged, "arguments-modified")

---------------------------------------------------------------------------
Verify(e) ==
  CASE e.ev = "codes" -> <<>>
    [] e.ev = "inv"   -> VerifyInv(e)

Call ==
  /\ pos = 0 /\ Trace[l].ev # "ml"
  /\ fails' = AddFails(fails, l, Verify(Trace[l]))
  /\ l' = l + 1 /\ UNCHANGED <<pos, da, dp>>

TraceInit == l = Start /\ fails = <<>> /\ done = FALSE /\ pos = 0 /\ da = <<>> /\ dp = <<>>

TraceNext ==
  \/ l <= NTrace /\ done' = done /\ (Call \/ MlBegin \/ MlStep \/ MlEnd)
  \/ l > NTrace /\ ~done /\ done' = TRUE /\ Verdict(fails) /\ UNCHANGED <<l, fails, pos, da, dp>>

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
