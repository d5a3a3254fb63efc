------------------------------ MODULE TR_Conv -------------------------------
(***************************************************************************)
(* Trace specification of trellis construction (C01), convolutional        *)
(* encoding (C02) and puncturing (C03).                                    *)
(*                                                                         *)
(* conv_encode is validated clock tick by clock tick.  The tail of a       *)
(* terminated word is unlogged nondeterminism: every input the encoder     *)
(* could have fed itself is tracked (`regs' is the set of states the       *)
(* encoder may be in), and at the end the all-zero state must be possible. *)
(***************************************************************************)
EXTENDS ConvCode, TraceKit

VARIABLES l, fails, done, pos, regs
vars == <<l, fails, done, pos, regs>>

\* Declared codes are logged once, at the head of the trace.
Codes  == Trace[1].codes
NCodes == Len(Codes)
Mach   == TLCEval([i \in 1..NCodes |-> TLCEval(Machine(Codes[i]))])
Trel   == TLCEval([i \in 1..NCodes |-> TLCEval(Trellis(Mach[i]))])

---------------------------------------------------------------------------
(* C01 *)
VerifyTrellis(e) ==
  LET t == Trel[e.code] IN
  IF Raised(e) THEN <<"construction-raised">>
  ELSE Clause(e.k = t.k /\ e.n = t.n /\ e.tm = t.tm /\ e.S = t.S /\ e.I = t.I, "parameters")
    \o Clause(/\ Len(e.nst) = t.S
              /\ \A s \in 0..(t.S - 1) : /\ Len(e.nst[s + 1]) = t.I
                                         /\ \A u \in 0..(t.I - 1) : e.nst[s + 1][u + 1] = t.nst[s][u], "next-state-table")
    \o Clause(/\ Len(e.out) = t.S
              /\ \A s \in 0..(t.S - 1) : /\ Len(e.out[s + 1]) = t.I
                                         /\ \A u \in 0..(t.I - 1) : e.out[s + 1][u + 1] = t.out[s][u], "output-table")
    \o Clause(e.unchanged, "arguments-modified")

\* Two declarations of one code (other polynomial format) give one trellis.
VerifySame(e) ==
  Clause(Trel[e.code1].nst = Trel[e.code2].nst /\ Trel[e.code1].out = Trel[e.code2].out, "DRIVER-not-the-same-code")
  \o Clause(e.equal, "formats-disagree")

---------------------------------------------------------------------------
(* C03: puncturing.  v is the puncture vector, repeated cyclically. *)
Kept(v, i) == v[((i - 1) % Len(v)) + 1] = 1
KeptPositions(v, len) == SelectSeq([i \in 1..len |-> i], LAMBDA i : Kept(v, i))
Punctured(x, v) == LET p == KeptPositions(v, Len(x)) IN [j \in 1..Len(p) |-> x[p[j]]]

VerifyPuncture(e) ==
  IF Raised(e) THEN <<"puncturing-raised">>
  ELSE Clause(e.y = Punctured(e.x, e.v), "puncturing") \o Clause(e.unchanged, "arguments-modified")

VerifyDepuncture(e) ==
  IF Raised(e) THEN <<"depuncturing-raised">>
  ELSE LET p == KeptPositions(e.v, e.len) IN
       Clause(Len(e.x) = e.len, "depunctured-length")
    \o Clause(Len(e.x) = e.len => \A j \in 1..Len(p) : e.x[p[j]] = e.y[j], "depunctured-values")
    \o Clause(Len(e.x) = e.len => \A i \in 1..e.len : ~Kept(e.v, i) => e.x[i] = 0, "depunctured-filling")
    \o Clause(e.unchanged, "arguments-modified")

\* conv_encode with a puncture row = the punctured output of the plain call
VerifyEncPunct(e) ==
  IF Raised(e) THEN <<"punctured-encoding-raised">>
  ELSE Clause(e.y = Punctured(e.full, e.v), "punctured-encoding")

---------------------------------------------------------------------------
(* C02: clock by clock.  An "enc" event holds code, message and coded bits. *)
Steps(e)    == Len(e.msg) \div Codes[e.code].k
Tail_(e)    == IF e.term = "term" THEN TailSteps(Codes[e.code]) ELSE 0
InputAt(e, i) == BitsToInt(SubSeq(e.msg, (i - 1) * Codes[e.code].k + 1, i * Codes[e.code].k))
OutAt(e, i)   == BitsToInt(SubSeq(e.out, (i - 1) * Codes[e.code].n + 1, i * Codes[e.code].n))
IsBits(s)     == \A i \in 1..Len(s) : s[i] \in {0, 1}

EncHead(e) ==
  IF Raised(e) THEN <<"encoding-raised">>
  ELSE Clause(Len(e.out) = Codes[e.code].n * (Steps(e) + Tail_(e)), "coded-length")
    \o Clause(IsBits(e.out), "not-bits")
    \o Clause(e.unchanged, "arguments-modified")

EncBegin ==
  /\ pos = 0 /\ Trace[l].ev = "enc"
  /\ LET cl == EncHead(Trace[l]) IN
     IF cl # <<>>
     THEN /\ fails' = AddFails(fails, l, cl) /\ l' = l + 1 /\ UNCHANGED <<pos, regs>>
     ELSE /\ pos' = 1 /\ regs' = {0} /\ UNCHANGED <<l, fails>>

\* One tick on a message symbol: the output must be the machine's.
EncClock ==
  /\ pos > 0 /\ pos <= Steps(Trace[l])
  /\ LET e == Trace[l]
         t == Trel[e.code]
         s == CHOOSE x \in regs : TRUE
         u == InputAt(e, pos)
     IN IF t.out[s][u] = OutAt(e, pos)
        THEN /\ regs' = {t.nst[s][u]} /\ pos' = pos + 1 /\ UNCHANGED <<l, fails>>
        ELSE /\ fails' = AddFails(fails, l, <<"coded-bits">>) /\ l' = l + 1 /\ pos' = 0 /\ regs' = {}

\* One tick of the tail: some input explains the output.
EncTail ==
  /\ pos > 0 /\ pos > Steps(Trace[l]) /\ pos <= Steps(Trace[l]) + Tail_(Trace[l])
  /\ LET e == Trace[l]
         t == Trel[e.code]
         nx == {t.nst[p[1]][p[2]] : p \in {q \in regs \X (0..(t.I - 1)) : t.out[q[1]][q[2]] = OutAt(e, pos)}}
     IN IF nx # {}
        THEN /\ regs' = nx /\ pos' = pos + 1 /\ UNCHANGED <<l, fails>>
        ELSE /\ fails' = AddFails(fails, l, <<"tail-not-a-path">>) /\ l' = l + 1 /\ pos' = 0 /\ regs' = {}

EncEnd ==
  /\ pos > 0 /\ pos > Steps(Trace[l]) + Tail_(Trace[l])
  /\ fails' = AddFails(fails, l, Clause(Trace[l].term = "term" => 0 \in regs, "not-terminated"))
  /\ l' = l + 1 /\ pos' = 0 /\ regs' = {}

---------------------------------------------------------------------------
Verify(e) ==
  CASE e.ev = "codes"   -> <<>>
    [] e.ev = "trellis" -> VerifyTrellis(e)
    [] e.ev = "same"    -> VerifySame(e)
    [] e.ev = "punct"   -> VerifyPuncture(e)
    [] e.ev = "depunct" -> VerifyDepuncture(e)
    [] e.ev = "encp"    -> VerifyEncPunct(e)

Call ==
  /\ pos = 0 /\ Trace[l].ev # "enc"
  /\ fails' = AddFails(fails, l, Verify(Trace[l]))
  /\ l' = l + 1 /\ UNCHANGED <<pos, regs>>

TraceInit == l = Start /\ fails = <<>> /\ done = FALSE /\ pos = 0 /\ regs = {}

TraceNext ==
  \/ l <= NTrace /\ done' = done /\ (Call \/ EncBegin \/ EncClock \/ EncTail \/ EncEnd)
  \/ l > NTrace /\ ~done /\ done' = TRUE /\ Verdict(fails) /\ UNCHANGED <<l, fails, pos, regs>>

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
