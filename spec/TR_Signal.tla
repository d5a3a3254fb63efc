------------------------------ MODULE TR_Signal -----------------------------
(***************************************************************************)
(* Trace specification of sequences (C26), phases (C27), bit utilities     *)
(* (C28) and OFDM (C29).  For C28 the state is the heap of all results     *)
(* handed to the caller: each holds what was returned, or what the caller  *)
(* wrote into it since.                                                    *)
(***************************************************************************)
EXTENDS Signal, TraceKit
VARIABLES l, fails, done, heap
vars == <<l, fails, done, heap>>

---------------------------------------------------------------------------
(* C26 *)
PnRun(e) == FoldLeft(LAMBDA a, i : [r |-> LfsrNext(a.r, e.mask), ok |-> a.ok /\ e.out[i] = LfsrOut(a.r)],
                     [r |-> e.seed, ok |-> TRUE], [i \in 1..e.len |-> i]).ok
VerifyPn(e) ==
  IF Len(e.seed) # e.order \/ Len(e.mask) # e.order
  THEN Clause(e.exc = "ValueError", "inconsistent-lengths-accepted") \o Clause(e.argsame, "argument-modified")
  ELSE IF Raised(e) THEN <<"pnsequence-raised">>
  ELSE Clause(Len(e.out) = e.len, "length")
    \o Clause(Len(e.out) = e.len => PnRun(e), "register-run") \o Clause(e.argsame, "argument-modified")
\* A primitive register: the recorded output itself has the full period and is balanced.
Win(e, i) == SubSeq(e.out, i, i + e.order - 1)
VerifyPeriod(e) ==
  LET p == 2^e.order - 1 IN
  IF Raised(e) THEN <<"pnsequence-raised">>
  ELSE IF Len(e.out) # p + e.order THEN <<"length">>
  ELSE Clause(SumSeq(SubSeq(e.out, 1, p)) = 2^(e.order - 1), "balance")
    \o Clause(Win(e, 1) = Win(e, p + 1), "period")
    \o Clause(Cardinality({Win(e, i) : i \in 1..p}) = p, "shorter-period")
    \o Clause(PnRun([e EXCEPT !.len = p + e.order]), "register-run")

---------------------------------------------------------------------------
(* C27: phases are recorded as the nearest multiple, off is the distance   *)
(* to it in 1/10^6 of the unit, mag the magnitude in 1/10^6.               *)
Exact(mag, off) == mag >= 999990 /\ mag <= 1000010 /\ off <= 1000
VerifyZc(e) ==
  IF ~e.ints \/ ~ZcValid(e.u, e.len) THEN Clause(e.exc = "ValueError", "invalid-accepted")
  ELSE IF Raised(e) THEN <<"zcsequence-raised">>
  ELSE IF Len(e.idx) # e.len THEN <<"length">>
  ELSE Clause(\A i \in 1..e.len : e.idx[i] = (2 * e.len - ZcIndex(e.u, e.len, e.q, i - 1)) % (2 * e.len), "phase")
    \o Clause(\A i \in 1..e.len : Exact(e.mag[i], e.off[i]), "unit-magnitude-exact-phase")
VerifyOffset(e) ==
  IF Raised(e) THEN <<"add_frequency_offset-raised">>
  ELSE IF Len(e.idx) # e.len THEN <<"length">>
  ELSE Clause(\A i \in 1..e.len : IF e.zero[i] THEN e.idx[i] = -1 ELSE e.idx[i] = OffsetIndex(e.p, e.n, i - 1), "rotation")
    \o Clause(\A i \in 1..e.len : ~e.zero[i] => Exact(e.mag[i], e.off[i]), "magnitude-exact-phase")
    \o Clause(e.argsame, "argument-modified")

---------------------------------------------------------------------------
(* C28 *)
FlatBits(ns, w) == FoldLeft(LAMBDA a, n : a \o BitsOf(n, w), <<>>, ns)
VerifyBits(e) == IF Raised(e) THEN <<"dec2bitarray-raised">>
                 ELSE Clause(e.out = FlatBits(e.nums, e.w), "bits") \o Clause(e.argsame, "argument-modified")
VerifyDec(e) == IF Raised(e) THEN <<"bitarray2dec-raised">>
                ELSE Clause(DropZeros(e.out) = DropZeros(LimbsOf(e.bits)), "number") \o Clause(e.argsame, "argument-modified")
VerifyMeasure(e) ==
  IF Raised(e) THEN <<"raised">>
  ELSE (CASE e.ev = "hamming"  -> Clause(e.out = HammingOf(e.a, e.b), "hamming-distance")
          [] e.ev = "euclid"   -> Clause(e.out = EuclidOf(e.a, e.b), "euclidean-distance")
          [] e.ev = "upsample" -> Clause(e.out = UpsampleOf(e.x, e.n, <<0, 0>>), "upsample")
          [] e.ev = "power"    -> Clause(e.total = EnergyOf(e.x), "power"))
       \o Clause(e.argsame, "argument-modified")

---------------------------------------------------------------------------
(* C29 *)
NSym(e) == IF e.data = <<>> THEN 0 ELSE Len(e.data)          \* data: one sequence per OFDM symbol
VerifyTx(e) ==
  IF Raised(e) THEN <<"ofdm_tx-raised">>
  ELSE IF Len(e.out) # NSym(e) * (e.nfft + e.cp) THEN <<"length">>
  ELSE Clause(\A s \in 1..NSym(e) : \A i \in 1..e.cp :
                LET a == (s - 1) * (e.nfft + e.cp) IN
                \E dx, dy \in {-1, 0, 1} : e.out[a + i] = <<e.out[a + e.nfft + i][1] + dx, e.out[a + e.nfft + i][2] + dy>>, "cyclic-prefix")
    \o Clause(\A s \in 1..NSym(e) : e.bins[s] = BinsOf(e.data[s], e.nfft), "carrier-layout")
    \o Clause(e.nfft \in {2, 4} => \A s \in 1..NSym(e) : e.times[s] = SmallIdft(BinsOf(e.data[s], e.nfft)), "time-samples")
    \o Clause(e.argsame, "argument-modified")
VerifyRx(e) ==
  IF Raised(e) THEN <<"ofdm_rx-raised">>
  ELSE IF Len(e.out) # Len(e.bins) THEN <<"symbols">>
  ELSE Clause(\A s \in 1..Len(e.bins) : e.out[s] = DataOf(e.bins[s], e.nsc), "received-data") \o Clause(e.argsame, "argument-modified")
VerifyLoop(e) == IF Raised(e) THEN <<"raised">> ELSE Clause(e.out = e.data, "round-trip")

---------------------------------------------------------------------------
StepEv ==
  /\ ~(Trace[l].ev \in {"bits", "look", "scribble"})
  /\ LET e == Trace[l] IN fails' = AddFails(fails, l,
       CASE e.ev = "pn" -> VerifyPn(e) [] e.ev = "period" -> VerifyPeriod(e)
         [] e.ev = "zc" -> VerifyZc(e) [] e.ev = "offset" -> VerifyOffset(e)
         [] e.ev = "dec" -> VerifyDec(e) [] e.ev \in {"hamming", "euclid", "upsample", "power"} -> VerifyMeasure(e)
         [] e.ev = "tx" -> VerifyTx(e) [] e.ev = "rx" -> VerifyRx(e) [] e.ev = "loop" -> VerifyLoop(e))
  /\ UNCHANGED heap
Bits ==
  /\ Trace[l].ev = "bits"
  /\ LET e == Trace[l] IN
     /\ fails' = AddFails(fails, l, VerifyBits(e))
     /\ heap' = IF Raised(e) THEN heap ELSE (e.o :> FlatBits(e.nums, e.w)) @@ heap
Scribble ==      \* the caller writes into a result it got earlier
  /\ Trace[l].ev = "scribble"
  /\ LET e == Trace[l] IN heap' = IF e.o \in DOMAIN heap THEN [heap EXCEPT ![e.o] = [i \in 1..Len(@) |-> e.v]] ELSE heap
  /\ UNCHANGED fails
Look ==          \* a result held by the caller
  /\ Trace[l].ev = "look"
  /\ LET e == Trace[l] IN fails' = AddFails(fails, l, Clause(e.o \in DOMAIN heap => e.out = heap[e.o], "earlier-result-changed"))
  /\ UNCHANGED heap

TraceInit == l = Start /\ fails = <<>> /\ done = FALSE /\ heap = <<>>
Done == /\ l > NTrace /\ ~done /\ Verdict(fails) /\ done' = TRUE /\ UNCHANGED <<l, fails, heap>>
TraceNext == \/ /\ l <= NTrace /\ l' = l + 1 /\ done' = done /\ (StepEv \/ Bits \/ Scribble \/ Look)
             \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
