------------------------------- MODULE TR_Wifi ------------------------------
(***************************************************************************)
(* Trace specification of the 802.11 simulation (C25): the run machine of  *)
(* Link.tla fed by what is seen on the channel.                            *)
(***************************************************************************)
EXTENDS Wifi, Link, Modem, BigNat, TraceKit
VARIABLES l, fails, done, st
vars == <<l, fails, done, st>>

Nothing == [kind |-> "none"]
SetOf(s) == {s[i] : i \in 1..Len(s)}
Vec(e) == Log2(Points(e.mcs)) * e.ntx
Cfg(e) == [full |-> TRUE, npoints |-> e.npoints, limit |-> e.limit, errmin |-> e.errmin,
           chunk |-> Frame(e.req, Vec(e), RateNum(e.mcs), RateDen(e.mcs)), per |-> e.per, stop |-> e.stop]

\* BPSK, QPSK: points of modulus 1000 at multiples of 90 degrees, opposite labels opposite; QAM: the odd grid with Gray labels.
ModemOK(e) ==
  Clause(Len(e.pts) = Points(e.mcs), "modulation-order")
  \o (IF Len(e.pts) # Points(e.mcs) THEN <<>>
      ELSE IF Points(e.mcs) <= 4
      THEN Clause(SetOf(e.pts) = (IF Points(e.mcs) = 2 THEN {<<1000, 0>>, <<-1000, 0>>} ELSE {<<1000, 0>>, <<-1000, 0>>, <<0, 1000>>, <<0, -1000>>})
                  /\ GrayAt(e.pts, 2000000), "psk-points")
      ELSE Clause(SetOf(e.pts) = OddGrid(Points(e.mcs), 1000) /\ GrayAt(e.pts, 4000000), "qam-points"))

Start1 ==
  /\ Trace[l].ev = "wifi"
  /\ LET e == Trace[l] c == Cfg(e)
     IN /\ st' = [kind |-> "run", e |-> e, cfg |-> c, run |-> Settle(c, RInit)]
        /\ fails' = AddFails(fails, l, Clause(st.kind = "none", "run-not-finished") \o ModemOK(e))
\* e.point: the points whose noise level the channel has; e.labels: labels of the transmitted symbols; e.llr: the code bits the receiver handed over (<<>>: those transmitted).
CodeBits(e, m) == LET nb == Log2(m) IN [i \in 1..(Len(e.labels) * nb) |-> LabelBit(e.labels[((i - 1) \div nb) + 1], ((i - 1) % nb) + 1, nb)]
\* (\E x \in {v} binds the value of v once; LET would evaluate it at every use.)
Send ==
  /\ Trace[l].ev = "tx"
  /\ IF st.kind # "run" THEN fails' = AddFails(fails, l, <<"transmission-outside-run">>) /\ st' = st
     ELSE \E r \in {st.e} : \E c \in {st.cfg} : \E num \in {RateNum(st.e.mcs)} :
          \E tx \in {CodeBits(Trace[l], Points(r.mcs))} :
          \E msg \in {MessageOf(tx, num)} :
          \E dec \in {IF Trace[l].llr = <<>> THEN msg ELSE MessageOf(Trace[l].llr, num)} :
          LET e == Trace[l]
              n == c.chunk * c.per
              good == \A i \in 1..Len(e.labels) : e.labels[i] >= 0
              errs == IF Len(msg) = n /\ Len(dec) = n
                      THEN [k \in 1..c.per |-> Cardinality({i \in ((k - 1) * c.chunk + 1)..(k * c.chunk) : msg[i] # dec[i]})]
                      ELSE [k \in 1..c.per |-> 0]
          IN /\ fails' = AddFails(fails, l,
                  Clause(~st.run.over, "transmission-after-the-end")
               \o Clause(st.run.over \/ \E i \in 1..Len(e.point) : e.point[i] = st.run.pt, "snr-of-this-point")
               \o (IF ~good THEN <<"not-constellation-points">>
                   ELSE Clause(Len(tx) * num = n * RateDen(r.mcs), "coded-length")
                     \o Clause(Len(msg) = n, "not-a-punctured-codeword")
                     \o Clause(Len(dec) = n, "DRIVER-injected-word")))
             /\ st' = [st EXCEPT !.run = IF @.over THEN @ ELSE Settle(c, RSend(@, errs))]

NearQ(x, q) == IF q[1] = 0 THEN x.k = "zero" ELSE FloatNear(x, BnOf(q[1]), BnOf(q[2]))
End ==
  /\ Trace[l].ev = "end"
  /\ st' = Nothing
  /\ LET e == Trace[l] IN
     fails' = AddFails(fails, l,
       IF st.kind # "run" THEN <<"end-outside-run">>
       ELSE IF Raised(e) THEN <<"run-raised">>
       ELSE LET r == st.run
                c == st.cfg
                b == Bers(c, r)
            IN   Clause(r.over, "stopped-early")
              \o Clause(Len(e.ber) = c.npoints /\ \A i \in 1..c.npoints : NearQ(e.ber[i], b[i]), "ber")
              \o Clause(e.be = Table(c, r, SumAll), "bit-errors")
              \o Clause(e.ce = Table(c, r, LostIn), "lost-chunks")
              \o Clause(e.nc = Table(c, r, Len), "chunks-sent"))

TraceInit == l = Start /\ fails = <<>> /\ done = FALSE /\ st = Nothing
TraceNext ==
  \/ l <= NTrace /\ done' = done /\ l' = l + 1 /\ (Start1 \/ Send \/ End)
  \/ l > NTrace /\ ~done /\ done' = TRUE /\ Verdict(fails) /\ UNCHANGED <<l, fails, st>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
