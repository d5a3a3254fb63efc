----------------------------- MODULE TR_Interlv -----------------------------
(***************************************************************************)
(* Trace specification of interleavers (C08).                              *)
(*                                                                         *)
(* State: perm maps a length/seed pair (numbered by the driver) to the     *)
(* permutation it stands for, <<>> as long as nothing was observed.  The   *)
(* first observation on distinct values fixes the permutation, every later *)
(* use, by any object of this length and seed in any process, must agree.  *)
(***************************************************************************)
EXTENDS TraceKit

VARIABLES l, fails, done, perm
vars == <<l, fails, done, perm>>

NKeys == Trace[1].keys

IsPerm(p, n) == Len(p) = n /\ {p[i] : i \in 1..n} = 1..n
Distinct(x) == \A i, j \in 1..Len(x) : x[i] = x[j] => i = j
IndexIn(x, v) == IF \E i \in 1..Len(x) : x[i] = v THEN CHOOSE i \in 1..Len(x) : x[i] = v ELSE 0

\* The permutation an observation shows: interlv puts x[p[i]] at i, deinterlv puts x[i] at p[i].
Shown(e) ==
  IF e.op = "interlv" THEN [i \in 1..Len(e.x) |-> IndexIn(e.x, e.y[i])]
  ELSE [i \in 1..Len(e.x) |-> IndexIn(e.y, e.x[i])]

Agrees(e, p) ==
  /\ Len(e.x) = Len(p)
  /\ IF e.op = "interlv" THEN \A i \in 1..Len(p) : e.y[i] = e.x[p[i]]
     ELSE \A i \in 1..Len(p) : e.y[p[i]] = e.x[i]

Use ==
  /\ Trace[l].ev = "use"
  /\ LET e == Trace[l]
         p == perm[e.k]
         known == p # <<>>
         q == IF known THEN p ELSE Shown(e)
         lens == Len(e.y) = Len(e.x) /\ Len(e.x) = e.len
     IN /\ fails' = AddFails(fails, l,
             IF Raised(e) THEN <<"interleaver-raised">>
             ELSE Clause(lens, "length")
               \o Clause(e.unchanged, "arguments-modified")
               \o Clause(e.dtype, "type-changed")
               \o Clause(lens => IsPerm(q, e.len), "not-a-permutation")
               \o Clause((lens /\ IsPerm(q, e.len)) => Agrees(e, q), "order-changed"))
        /\ perm' = IF ~known /\ ~Raised(e) /\ lens /\ Distinct(e.x) /\ IsPerm(q, e.len) THEN [perm EXCEPT ![e.k] = q] ELSE perm

\* Seeds matter: the permutations of one length under many seeds are not all the same.
Seeds ==
  /\ Trace[l].ev = "seeds"
  /\ LET e == Trace[l]
         ps == {perm[e.ks[i]] : i \in 1..Len(e.ks)} \ {<<>>}
     IN fails' = AddFails(fails, l, Clause(Cardinality(ps) > 1, "seed-ignored"))
  /\ perm' = perm

\* Long arrays 0 .. n - 1: interlv, again by a second object, and back.
Long ==
  /\ Trace[l].ev = "long"
  /\ LET e == Trace[l]
     IN fails' = AddFails(fails, l,
          IF Raised(e) THEN <<"interleaver-raised">>
          ELSE Clause(Len(e.y) = e.n /\ {e.y[i] : i \in 1..Len(e.y)} = 0..(e.n - 1), "not-a-permutation")
            \o Clause(e.same, "order-changed")
            \o Clause(Len(e.z) = e.n /\ \A i \in 1..Len(e.z) : e.z[i] = i - 1, "not-inverse"))
  /\ perm' = perm

\* Drawing an interleaver leaves the global generator where it was.
Global ==
  /\ Trace[l].ev = "global"
  /\ fails' = AddFails(fails, l, Clause(Trace[l].same, "global-generator-disturbed"))
  /\ perm' = perm

Head_ == Trace[l].ev = "keys" /\ UNCHANGED <<fails, perm>>

TraceInit == l = Start /\ fails = <<>> /\ done = FALSE /\ perm = [k \in 1..NKeys |-> <<>>]
TraceNext ==
  \/ l <= NTrace /\ done' = done /\ l' = l + 1 /\ (Head_ \/ Use \/ Long \/ Seeds \/ Global)
  \/ l > NTrace /\ ~done /\ done' = TRUE /\ Verdict(fails) /\ UNCHANGED <<l, fails, perm>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
