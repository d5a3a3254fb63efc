------------------------------ MODULE TraceKit ------------------------------
(***************************************************************************)
(* Common part of all trace specifications.  A trace is the recorded       *)
(* execution of the real library: one JSON object per event.  Verdicts are *)
(* total: an event the specification cannot explain adds <<position,       *)
(* clause>> to `fails' and validation goes on with the next event.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace  == ndJsonDeserialize(IOEnv.TRACE)
NTrace == Len(Trace)

\* Validation starts here (not at 1 when it goes on after an event that could not be evaluated).
Start == atoi(IOEnv.START)

MaxFails == 40

\* A clause: nothing when it holds, its name when it does not.
Clause(holds, name) == IF holds THEN <<>> ELSE <<name>>

\* Adds the failed clauses of event number i.
AddFails(fails, i, cl) ==
  IF Len(fails) >= MaxFails \/ cl = <<>> THEN fails
  ELSE fails \o [j \in 1..Len(cl) |-> <<i, cl[j]>>]

Verdict(fails) ==
  PrintT("VERDICT " \o ToJson([events |-> NTrace, fails |-> fails]))

Has(e, f) == f \in DOMAIN e
Raised(e) == e.exc # ""
=============================================================================
