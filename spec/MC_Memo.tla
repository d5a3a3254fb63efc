------------------------------- MODULE MC_Memo ------------------------------
(***************************************************************************)
(* A library with a bounded cache of results, and a caller who keeps       *)
(* results and writes into them.  The library hands out copies: every      *)
(* result is the function value, and nothing the caller holds changes      *)
(* except by its own hand (C28, C30).                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils
VARIABLES cache,    \* argument -> value kept by the library (at most Size of them)
          heap,     \* objects of the caller: what each holds
          shadow,   \* what each must hold: the function value, or what the caller wrote
          last      \* argument and value of the last call
vars == <<cache, heap, shadow, last>>
Keys == 0..3
Objs == 1..(IF IOEnv.TIER = "quick" THEN 4 ELSE 5)
Size == 2
F(k) == <<k % 2, k \div 2>>
Garbage == <<7, 7>>
Init == cache = <<>> /\ heap = <<>> /\ shadow = <<>> /\ last = <<>>
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Call(k, o) ==
  /\ o \notin DOMAIN heap
  /\ LET v == IF k \in DOMAIN cache THEN cache[k] ELSE F(k) IN
     /\ heap' = (o :> v) @@ heap /\ last' = <<k, v>>
     /\ \/ Cardinality(DOMAIN cache \cup {k}) <= Size /\ cache' = (k :> v) @@ cache
        \/ \E old \in DOMAIN cache \ {k} : Cardinality(DOMAIN cache \cup {k}) > Size /\ cache' = (k :> v) @@ Without(cache, old)
  /\ shadow' = (o :> F(k)) @@ shadow
Scribble(o) == /\ o \in DOMAIN heap /\ heap' = [heap EXCEPT ![o] = Garbage] /\ shadow' = [shadow EXCEPT ![o] = Garbage]
               /\ UNCHANGED <<cache, last>>
Drop(o) == /\ o \in DOMAIN heap /\ heap' = Without(heap, o) /\ shadow' = Without(shadow, o) /\ UNCHANGED <<cache, last>>
Next == \E o \in Objs : Scribble(o) \/ Drop(o) \/ \E k \in Keys : Call(k, o)
Spec == Init /\ [][Next]_vars
FunctionValue == last # <<>> => last[2] = F(last[1])
HeldUnchanged == heap = shadow
CacheSound == \A k \in DOMAIN cache : cache[k] = F(k)
=============================================================================
