------------------------------- MODULE TR_Link ------------------------------
(***************************************************************************)
(* Trace specification of link simulations (C22, C23) and of iterative     *)
(* detection and decoding (C24).  st is the state of the run the trace is  *)
(* in: run (Link.tla) or exchange.  at in a send: the points whose noise   *)
(* level the channel has while it carries the frame.                       *)
(***************************************************************************)
EXTENDS Link, BigNat, TraceKit
VARIABLES l, fails, done, st
vars == <<l, fails, done, st>>

Nothing == [kind |-> "none"]

(* e.vec bits per symbol vector; e.rate = <<p, q>>.                        *)
Cfg(e) == [full |-> e.full, npoints |-> e.npoints, limit |-> e.limit, errmin |-> e.errmin,
           chunk |-> Frame(e.req, e.vec, e.rate[1], e.rate[2]), per |-> e.per, stop |-> e.stop]
Start1 ==
  /\ Trace[l].ev = "run"
  /\ LET e == Trace[l] c == Cfg(e)
     IN st' = [kind |-> "run", e |-> e, cfg |-> c, run |-> Settle(c, RInit)]
  /\ fails' = AddFails(fails, l, Clause(st.kind = "none", "run-not-finished"))

\* One frame: modulated, propagated, received vector by vector, decoded.
ErrsPerChunk(e, c) == [k \in 1..c.per |-> Cardinality({i \in 1..Len(e.pos) : e.pos[i] > (k - 1) * c.chunk /\ e.pos[i] <= k * c.chunk})]
NVec(e, c) == CodedLen(c.chunk * c.per, e.rate[1], e.rate[2]) \div e.vec
Send ==
  /\ Trace[l].ev = "send"
  /\ IF st.kind # "run" THEN fails' = AddFails(fails, l, <<"send-outside-run">>) /\ st' = st
     ELSE LET e == Trace[l]
              r == st.e
              c == st.cfg
          IN /\ fails' = AddFails(fails, l,
                  Clause(~st.run.over, "send-after-the-end")
               \o Clause(st.run.over \/ \E i \in 1..Len(e.at) : e.at[i] = st.run.pt, "snr-of-this-point")
               \o Clause(e.len = c.chunk * c.per, "frame-length")
               \o Clause(e.bits, "message-not-bits")
               \o Clause(e.nmod = 1 /\ e.nprop = 1 /\ e.propok, "modulate-then-propagate")
               \o Clause(e.rx = (IF r.mimo THEN [i \in 1..NVec(r, c) |-> i] ELSE <<0>>), "receive-order")
               \o Clause(e.rxargs, "receive-arguments")
               \o Clause(e.decin, "decoder-input")
               \o Clause(e.decargs, "decoder-arguments"))
             /\ st' = [st EXCEPT !.run = IF @.over THEN @ ELSE Settle(c, RSend(@, ErrsPerChunk(e, c)))]

Near(x, q) == IF q[1] = 0 THEN x.k = "zero" ELSE FloatNear(x, BnOf(q[1]), BnOf(q[2]))
End ==
  /\ Trace[l].ev = "end"
  /\ st' = Nothing
  /\ LET e == Trace[l] IN
     fails' = AddFails(fails, l,
       IF st.kind # "run" THEN <<"end-outside-run">>
       ELSE IF Raised(e) THEN <<"run-raised">>
       ELSE LET r == st.run
                c == st.cfg
                b == Bers(c, r)
            IN   Clause(r.over, "stopped-early")
              \o Clause(Len(e.ber) = c.npoints /\ \A i \in 1..c.npoints : Near(e.ber[i], b[i]), "ber")
              \o (IF c.full
                  THEN   Clause(e.be = Table(c, r, SumAll), "bit-errors")
                      \o Clause(e.ce = Table(c, r, LostIn), "lost-chunks")
                      \o Clause(e.nc = Table(c, r, Len), "chunks-sent")
                      \o Clause(e.kept, "full-simulation-results")
                  ELSE <<>>)
              \o Clause(e.unchanged, "arguments-modified"))

---------------------------------------------------------------------------
(* Iterative detection and decoding (C24).  x is what the decoder gets     *)
(* next, ext the extrinsic information of the decoder.  The environment    *)
(* (both stubs) chooses its outputs; the library chooses the inputs.       *)
Minus(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
Slice(a, i, n) == SubSeq(a, (i - 1) * n + 1, i * n)
IStart ==
  /\ Trace[l].ev = "istart"
  /\ LET e == Trace[l] IN
     st' = [kind |-> "idd", e |-> e, it |-> 1, phase |-> "decode", x |-> e.llr, ext |-> <<>>, new |-> <<>>, out |-> <<>>]
  /\ fails' = AddFails(fails, l, Clause(st.kind = "none", "run-not-finished"))
IDec ==
  /\ Trace[l].ev = "idec"
  /\ LET e == Trace[l] IN
     /\ fails' = AddFails(fails, l,
          IF st.kind # "idd" \/ st.phase # "decode" THEN <<"decoder-out-of-turn">>
          ELSE Clause(e.in = st.x, "decoder-input"))
     /\ st' = IF st.kind # "idd" THEN st
              ELSE [st EXCEPT !.phase = "detect", !.ext = Minus(e.out, st.x), !.new = <<>>]
IDet ==
  /\ Trace[l].ev = "idet"
  /\ LET e == Trace[l]
         i == IF st.kind = "idd" THEN Len(st.new) + 1 ELSE 0
     IN
     IF st.kind # "idd" \/ st.phase # "detect" THEN fails' = AddFails(fails, l, <<"detector-out-of-turn">>) /\ st' = st
     ELSE /\ fails' = AddFails(fails, l,
                 Clause(e.y = i /\ e.h = i, "vector-order") \o Clause(e.args, "detector-arguments")
              \o Clause(e.in = Slice(st.ext, i, st.e.bps), "detector-input"))
          /\ LET nn == Append(st.new, e.out)
                 RECURSIVE Cat(_) Cat(k) == IF k = 0 THEN <<>> ELSE Cat(k - 1) \o nn[k]
                 all == Cat(Len(nn))
             IN st' = IF Len(nn) < st.e.nvect THEN [st EXCEPT !.new = nn]
                      ELSE [st EXCEPT !.new = <<>>, !.out = all, !.x = Minus(all, st.ext), !.it = @ + 1,
                                      !.phase = IF st.it = st.e.nit THEN "decide" ELSE "decode"]
IEnd ==
  /\ Trace[l].ev = "iend"
  /\ LET e == Trace[l] IN
     fails' = AddFails(fails, l,
       IF st.kind # "idd" THEN <<"end-outside-run">>
       ELSE IF Raised(e) THEN <<"idd-raised">>
       ELSE Clause(st.phase = "decide", "stopped-early") \o Clause(st.phase = "decide" => e.in = st.out, "decision-input")
         \o Clause(e.ndec = 1, "one-decision") \o Clause(e.retok, "result-not-the-decision") \o Clause(e.unchanged, "arguments-modified"))
  /\ st' = Nothing

TraceInit == l = Start /\ fails = <<>> /\ done = FALSE /\ st = Nothing
TraceNext ==
  \/ l <= NTrace /\ done' = done /\ l' = l + 1 /\ (Start1 \/ Send \/ End \/ IStart \/ IDec \/ IDet \/ IEnd)
  \/ l > NTrace /\ ~done /\ done' = TRUE /\ Verdict(fails) /\ UNCHANGED <<l, fails, st>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
