------------------------------ MODULE TR_Mimo -------------------------------
(***************************************************************************)
(* Noiseless MIMO links, end to end (C33).  The state is the transport of  *)
(* one frame: the message, its coded bits, how many channel uses have been *)
(* received and what they brought.                                         *)
(*  link   a link is set up: antennas, bits per symbol, receiver, code     *)
(*  frame  the link sends a message; the code and modulation closures and  *)
(*         the channel are observed                                        *)
(*  use    the receiver returns the bits (signs of LLRs) of one use        *)
(*  decin  the decoder is called with all received values                  *)
(*  det    a detector call of an iterative receiver                        *)
(*  out    decided bits                                                    *)
(*  report what the run reports                                            *)
(***************************************************************************)
EXTENDS Transport, TraceKit
VARIABLES l, fails, done, link, frame, uses, acc, frames
vars == <<l, fails, done, link, frame, uses, acc, frames>>

NoFrame == [msg |-> <<>>, coded |-> <<>>]
PerUse == link.nt * link.nb
Src(n) == [k \in 1..(n * link.rep) |-> IF link.perm = <<>> THEN ((k - 1) \div link.rep) + 1
                                       ELSE ((link.perm[((k - 1) % Len(link.perm)) + 1] - 1
                                              + ((k - 1) \div Len(link.perm)) * Len(link.perm)) \div link.rep) + 1]

\* Sent symbols are the labels of the coded bits, coded bits those of the message.
VerifyFrame(e) ==
  LET want == EncodeT(e.msg, Src(Len(e.msg))) IN
     Clause(Len(e.msg) >= 1 /\ \A k \in 1..Len(e.msg) : e.msg[k] \in 0..1, "message-bits")
  \o Clause(e.coded = want, "DRIVER-code")
  \o Clause(Len(e.msg) * link.rep % PerUse = 0, "frame-not-whole-vectors")
  \o Clause(e.labels = LabelsOf(want, link.nb), "sent-symbols")
  \o Clause(e.uses * PerUse = Len(want), "channel-uses")

NUses == Len(frame.coded) \div PerUse

Step(e) ==
  CASE e.ev = "link" ->
         /\ link' = e /\ frame' = NoFrame /\ uses' = 0 /\ acc' = <<>> /\ frames' = 0
         /\ fails' = fails
    [] e.ev = "frame" ->
         /\ frame' = [msg |-> e.msg, coded |-> EncodeT(e.msg, Src(Len(e.msg)))] /\ uses' = 0 /\ acc' = <<>> /\ frames' = frames + 1
         /\ fails' = AddFails(fails, l, VerifyFrame(e)) /\ UNCHANGED link
    [] e.ev = "use" ->           \* the next channel use, its own slice
         /\ uses' = uses + 1 /\ acc' = acc \o e.bits
         /\ fails' = AddFails(fails, l, Clause(uses < NUses, "too-many-uses")
                \o Clause(uses < NUses => e.bits = UseBits(frame.coded, link.nt, link.nb, uses + 1), "received-bits"))
         /\ UNCHANGED <<link, frame, frames>>
    [] e.ev = "siso" ->          \* a receiver that handles the whole frame at once
         /\ uses' = NUses /\ acc' = e.bits
         /\ fails' = AddFails(fails, l, Clause(e.bits = frame.coded, "received-bits"))
         /\ UNCHANGED <<link, frame, frames>>
    [] e.ev = "decin" ->
         /\ fails' = AddFails(fails, l, Clause(uses = NUses, "missing-uses") \o Clause(e.bits = frame.coded, "decoder-input"))
         /\ UNCHANGED <<link, frame, uses, acc, frames>>
    [] e.ev = "det" ->           \* iterative receivers go over the uses again and again
         /\ fails' = AddFails(fails, l, Clause(e.use \in 1..NUses /\ (e.use \in 1..NUses =>
                 e.bits = UseBits(frame.coded, link.nt, link.nb, e.use)), "detector-bits"))
         /\ UNCHANGED <<link, frame, uses, acc, frames>>
    [] e.ev = "out" ->
         /\ fails' = AddFails(fails, l, Clause(e.bits = frame.msg, "decided-bits"))
         /\ UNCHANGED <<link, frame, uses, acc, frames>>
    [] e.ev = "report" ->
         /\ fails' = AddFails(fails, l,
              IF Raised(e) THEN <<"link-raised">>
              ELSE Clause(\A i \in 1..Len(e.ber) : e.ber[i] = 0, "bit-error-rate")
                \o Clause(e.frames = frames /\ frames >= 1, "frames"))
         /\ UNCHANGED <<link, frame, uses, acc, frames>>

TraceInit == l = Start /\ fails = <<>> /\ done = FALSE /\ link = [nt |-> 1, nb |-> 1, rep |-> 1, perm |-> <<>>]
             /\ frame = NoFrame /\ uses = 0 /\ acc = <<>> /\ frames = 0
TraceNext ==
  \/ l <= NTrace /\ done' = done /\ l' = l + 1 /\ Step(Trace[l])
  \/ l > NTrace /\ ~done /\ done' = TRUE /\ Verdict(fails) /\ UNCHANGED <<l, fails, link, frame, uses, acc, frames>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
