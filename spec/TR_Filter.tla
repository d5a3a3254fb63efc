------------------------------ MODULE TR_Filter -----------------------------
(***************************************************************************)
(* Trace specification of the pulse-shaping filters (C31): a run over the  *)
(* samples of every generated filter, one action per sample.               *)
(***************************************************************************)
EXTENDS Filters, TraceKit
VARIABLES l, fails, done, pos
vars == <<l, fails, done, pos>>

Tol == <<0, 0, 0, 1>>                             \* 10^-8 of the peak
Real(x) == x.s \in {1, -1}
\* The time of sample i (from 0) in units: (2 i - N) tu / tv, tu / tv half a sampling period (in symbols or seconds).
Shape(e, i) ==
  LET k == 2 * i - e.n IN
  CASE e.kind = "rc"    -> RcShape(k * e.tu, e.tv, e.a, e.b)
    [] e.kind = "rrc"   -> RrcShape(k * e.tu, e.tv, e.a, e.b)
    [] e.kind = "gauss" -> GaussShape(k * e.tu, e.tv, e.a, e.b)
    [] e.kind = "rect"  -> <<FrOne, FrOne>>
\* Time indices: (2 i - N) / (2 Fs), Fs = fu / fv, in seconds.
OnTime(e, i) == LET want == FrRat((2 * i - e.n) * e.fv, 2 * e.fu) IN
                FrNear(e.t[i + 1], want, BnAdd(FrMul([s |-> 1, m |-> <<0, 100>>], FrAbs(want)).m, <<1>>))
Header(e) ==
  IF Raised(e) THEN <<"filter-raised">>
  ELSE Clause(Len(e.t) = e.n /\ Len(e.h) = e.n, "length") \o Clause(e.kindok, "real-vectors")
    \o Clause(\A i \in 1..Len(e.h) : Real(e.h[i]), "not-finite") \o Clause(\A i \in 1..Len(e.t) : Real(e.t[i]), "time-not-finite")
Begin ==
  /\ pos = -1
  /\ \E cl \in {Header(Trace[l])} :
       IF cl # <<>> \/ Trace[l].n = 0 THEN fails' = AddFails(fails, l, cl) /\ l' = l + 1 /\ UNCHANGED pos
       ELSE pos' = 0 /\ UNCHANGED <<l, fails>>
Sample ==
  /\ pos >= 0
  /\ \E cl \in {Clause(OnTime(Trace[l], pos), "time-index") \o Clause(OnShape(Trace[l].h[pos + 1], Shape(Trace[l], pos), Tol), "impulse-response")} :
       IF cl # <<>> \/ pos + 1 = Trace[l].n
       THEN fails' = AddFails(fails, l, cl) /\ l' = l + 1 /\ pos' = -1
       ELSE pos' = pos + 1 /\ UNCHANGED <<l, fails>>

TraceInit == l = Start /\ fails = <<>> /\ done = FALSE /\ pos = -1
TraceNext ==
  \/ l <= NTrace /\ done' = done /\ (Begin \/ Sample)
  \/ l > NTrace /\ ~done /\ done' = TRUE /\ Verdict(fails) /\ UNCHANGED <<l, fails, pos>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
