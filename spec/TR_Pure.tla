------------------------------- MODULE TR_Pure ------------------------------
(***************************************************************************)
(* C30: the library as a memo.  memo maps every call (operation with its   *)
(* arguments) to its result, fixed by the first observation in a fresh     *)
(* process; between the calls, other operations ran and the caller wrote   *)
(* into results it held.                                                   *)
(***************************************************************************)
EXTENDS TraceKit
VARIABLES l, fails, done, memo
vars == <<l, fails, done, memo>>

Observe(e) ==
  /\ memo' = IF e.key \in DOMAIN memo THEN memo ELSE (e.key :> <<e.res, e.raised>>) @@ memo
  /\ fails' = AddFails(fails, l,
       Clause(e.raised = "", "raised-" \o e.op)
       \o Clause(e.key \in DOMAIN memo => memo[e.key] = <<e.res, e.raised>>, "depends-on-history-" \o e.op)
       \o (IF e.ev = "call" THEN Clause(e.argsame, "argument-modified-" \o e.op) ELSE <<>>))
Random(e) ==
  /\ fails' = AddFails(fails, l, Clause(e.raised = "", "raised-" \o e.op) \o Clause(e.argsame, "argument-modified-" \o e.op))
  /\ UNCHANGED memo

TraceInit == l = Start /\ fails = <<>> /\ done = FALSE /\ memo = <<>>
TraceNext ==
  \/ /\ l <= NTrace /\ done' = done /\ l' = l + 1
     /\ LET e == Trace[l] IN IF e.ev = "random" THEN Random(e) ELSE Observe(e)
  \/ /\ l > NTrace /\ ~done /\ done' = TRUE /\ Verdict(fails) /\ UNCHANGED <<l, fails, memo>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
