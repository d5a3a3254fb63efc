-------------------------------- MODULE Link --------------------------------
(***************************************************************************)
(* Monte Carlo link simulation as a state machine.                         *)
(*                                                                         *)
(* A run walks over the SNR points.  At each point it sends frames until   *)
(* its stopping rule holds; the environment (channel, receiver, decoder)   *)
(* chooses which bits of a frame arrive wrong.  A point that does not      *)
(* collect enough errors is the last one.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE LGcd(_, _)
LGcd(ga, gb) == IF gb = 0 THEN ga ELSE LGcd(gb, ga % gb)
LMax(ga, gb) == IF ga > gb THEN ga ELSE gb

\* Message bits of the smallest frame that fills whole symbol vectors of gv bits at code rate gp/gq.
Unit(gv, gp, gq) == (gv * gp) \div LGcd(gv * gp, gq)
\* The largest frame not above the requested size, at least one unit.
Frame(greq, gv, gp, gq) == LMax(Unit(gv, gp, gq), (greq \div Unit(gv, gp, gq)) * Unit(gv, gp, gq))
CodedLen(gn, gp, gq) == (gn * gq) \div gp

(***************************************************************************)
(* Run state: cfg is the request [full, npoints, limit (bits or            *)
(* transmissions), errmin, chunk (already rounded), per (chunks per send), *)
(* stop].  pt is the current point, sent the sends of this point so far,   *)
(* each a tuple of error counts per chunk; past the closed points.         *)
(***************************************************************************)
RECURSIVE SumTo(_, _)
SumTo(gs, gi) == IF gi = 0 THEN 0 ELSE gs[gi] + SumTo(gs, gi - 1)
SumAll(gs) == SumTo(gs, Len(gs))
ErrorsIn(gsent) == SumAll([gi \in 1..Len(gsent) |-> SumAll(gsent[gi])])
LostIn(gsend) == Cardinality({gi \in 1..Len(gsend) : gsend[gi] > 0})

\* Whether the point goes on after the sends so far.
GoesOn(gc, gsent) ==
  IF gc.full THEN Len(gsent) < gc.limit /\ ~(gc.stop /\ ErrorsIn(gsent) > gc.errmin)
  ELSE Len(gsent) * gc.chunk < gc.limit /\ ErrorsIn(gsent) < gc.errmin
\* Whether the run goes on after this (finished) point.
Worth(gc, gsent) == ErrorsIn(gsent) >= gc.errmin

RInit == [pt |-> 1, sent |-> <<>>, past |-> <<>>, over |-> FALSE]
RSend(gr, gerrs) == [gr EXCEPT !.sent = Append(@, gerrs)]
RClose(gc, gr) ==
  [gr EXCEPT !.past = Append(@, gr.sent), !.sent = <<>>, !.pt = @ + 1,
             !.over = gr.pt = gc.npoints \/ ~Worth(gc, gr.sent)]
\* closing everything that is due
Settle(gc, gr) == IF ~gr.over /\ ~GoesOn(gc, gr.sent) THEN RClose(gc, gr) ELSE gr

(* What the run reports.                                                   *)
BerOf(gc, gsent) == <<ErrorsIn(gsent), Len(gsent) * gc.chunk * gc.per>>     \* quotient
Bers(gc, gr) == [gi \in 1..gc.npoints |-> IF gi <= Len(gr.past) THEN BerOf(gc, gr.past[gi]) ELSE <<0, 1>>]
Table(gc, gr, Val(_)) == [gi \in 1..gc.npoints |-> [gj \in 1..gc.limit |->
                            IF gi <= Len(gr.past) /\ gj <= Len(gr.past[gi]) THEN Val(gr.past[gi][gj]) ELSE 0]]
=============================================================================
