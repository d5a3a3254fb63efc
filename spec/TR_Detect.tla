------------------------------ MODULE TR_Detect -----------------------------
(***************************************************************************)
(* Trace specification of the MIMO detectors (C17, C18).  Everything is    *)
(* over Gaussian integers.  K-best traces run the tree search one level    *)
(* per step.                                                               *)
(***************************************************************************)
EXTENDS Detect, TraceKit
VARIABLES l, fails, done, level, surv
vars == <<l, fails, done, level, surv>>

Nb(e) == LET RECURSIVE Lg(_) Lg(n) == IF n <= 1 THEN 0 ELSE 1 + Lg(n \div 2) IN Lg(Len(e.con))
LabelBit(v, i, nb) == (v \div 2^(nb - i)) % 2
\* bit k of a label vector
BitOf(x, k, nb) == LabelBit(x[((k - 1) \div nb) + 1], ((k - 1) % nb) + 1, nb)
NTx(e) == Len(e.h[1])
InCon(e, x) == Len(x) = NTx(e) /\ \A i \in 1..Len(x) : x[i] \in 0..(Len(e.con) - 1)

VerifyHard(e) ==
  IF NTx(e) > Len(e.h) /\ e.det = "kbest" THEN Clause(e.exc = "ValueError", "wide-channel-accepted")
  ELSE IF Raised(e) THEN <<"detection-raised">>
  ELSE IF ~InCon(e, e.x) THEN <<"not-constellation-points">>
  ELSE LET ds == AllDists(e.y, e.h, e.con, NTx(e))
       IN Clause(DistOf(e.y, e.h, e.con, e.x) = MinSeq(ds, 2, ds[1]), "not-optimal") \o Clause(e.unchanged, "arguments-modified")

\* Bits decided by LLR signs (positive: 0); bits with an ambiguous optimum are left open.
BestDecision(e, signs) ==
  LET n  == NTx(e)
      m  == Len(e.con)
      ds == AllDists(e.y, e.h, e.con, n)
      lo == MinSeq(ds, 2, ds[1])
      opt == {k \in 1..Len(ds) : ds[k] = lo}
  IN Cardinality(opt) > 1 \/
     LET x == VecOf((CHOOSE k \in opt : TRUE) - 1, m, n)
     IN \A k \in 1..(n * Nb(e)) : signs[k] = 1 - 2 * BitOf(x, k, Nb(e))
VerifyBestFirst(e) ==
  IF Raised(e) THEN <<"detection-raised">>
  ELSE IF Len(e.signs) # NTx(e) * Nb(e) THEN <<"length">>
  ELSE Clause(BestDecision(e, e.signs), "decision") \o Clause(e.unchanged, "arguments-modified")
    \o Clause(e.ev = "bfsoft" => \A k \in 1..Len(e.signs) : e.mag[k] <= e.llrmax, "clipping")

VerifyBitLvl(e) ==
  IF Len(e.w) % 2 = 1 THEN Clause(e.exc = "ValueError", "odd-weights-accepted")
  ELSE IF Raised(e) THEN <<"bit-level-raised">>
  ELSE LET b == Len(e.w)
           n == Len(e.h[1])
       IN Clause(Len(e.a) = Len(e.h) /\ \A i \in 1..Len(e.a) :
              Len(e.a[i]) = n * b /\ \A j \in 1..(n * b) : e.a[i][j] = CMul(e.h[i][((j - 1) \div b) + 1], e.w[((j - 1) % b) + 1]),
            "bit-level-matrix")
       \o Clause(e.unchanged, "arguments-modified")

INF == 1000000000
\* Best distance per bit value among the listed vectors, exactly as max-log wants it: e.llr is LLR * 2 * noise variance.
RECURSIVE BestWith(_, _, _, _, _, _)
BestWith(vecs, ds, k, nb, v, i) ==
  IF i = 0 THEN INF
  ELSE LET r == BestWith(vecs, ds, k, nb, v, i - 1) IN IF BitOf(vecs[i], k, nb) = v /\ ds[i] < r THEN ds[i] ELSE r
MaxLogOK(e, vecs) ==
  LET ds == TLCEval([i \in 1..Len(vecs) |-> DistOf(e.y, e.h, e.con, vecs[i])])
      nb == Nb(e)
  IN \A k \in 1..(NTx(e) * nb) :
       LET b0 == BestWith(vecs, ds, k, nb, 0, Len(vecs))
           b1 == BestWith(vecs, ds, k, nb, 1, Len(vecs))
       IN e.llr[k] = IF b1 = INF THEN 2147483646 ELSE IF b0 = INF THEN -2147483646 ELSE b1 - b0
VerifyMaxLog(e, vecs) ==
  IF Raised(e) THEN <<"max-log-raised">>
  ELSE IF Len(e.llr) # NTx(e) * Nb(e) THEN <<"length">>
  ELSE Clause(MaxLogOK(e, vecs), "max-log") \o Clause(e.unchanged, "arguments-modified")
AllVecs(e) == TLCEval([k \in 1..(Len(e.con)^NTx(e)) |-> VecOf(k - 1, Len(e.con), NTx(e))])

Verify(e) ==
  CASE e.ev = "hard"    -> VerifyHard(e)
    [] e.ev \in {"bfhard", "bfsoft"} -> VerifyBestFirst(e)
    [] e.ev = "bitlvl"  -> VerifyBitLvl(e)
    [] e.ev = "maxlog"  -> VerifyMaxLog(e, e.vecs)
    [] e.ev = "ksoft"   -> VerifyMaxLog(e, AllVecs(e))
    [] e.ev = "badtype" -> Clause(e.exc = "ValueError", "unknown-type-accepted")
Call ==
  /\ level = 0 /\ Trace[l].ev # "tree"
  /\ fails' = AddFails(fails, l, Verify(Trace[l])) /\ l' = l + 1 /\ UNCHANGED <<level, surv>>

---------------------------------------------------------------------------
(* K-best on h = QR with orthogonal Q (Q^H Q = c I): z = Q^H y, metrics c R. *)
DriverOK(e) ==
  /\ \A i \in 1..Len(e.h) : \A j \in 1..NTx(e) :
       LET RECURSIVE S(_) S(k) == IF k > NTx(e) THEN <<0, 0>> ELSE CAdd(CMul(e.q[i][k], e.r[k][j]), S(k + 1)) IN e.h[i][j] = S(1)
  /\ \A a, b \in 1..NTx(e) :
       LET RECURSIVE S(_) S(k) == IF k > Len(e.h) THEN <<0, 0>> ELSE CAdd(CMul(<<e.q[k][a][1], -e.q[k][a][2]>>, e.q[k][b]), S(k + 1))
       IN S(1) = IF a = b THEN <<e.c, 0>> ELSE <<0, 0>>
  /\ \A a \in 1..NTx(e) :
       LET RECURSIVE S(_) S(k) == IF k > Len(e.h) THEN <<0, 0>> ELSE CAdd(CMul(<<e.q[k][a][1], -e.q[k][a][2]>>, e.y[k]), S(k + 1)) IN e.z[a] = S(1)
TreeRoot ==
  /\ level = 0 /\ Trace[l].ev = "tree"
  /\ LET e == Trace[l]
         bad == IF Raised(e) THEN <<"detection-raised">>
                ELSE Clause(DriverOK(e), "DRIVER-decomposition")
                  \o (IF e.type = "hard" THEN Clause(InCon(e, e.x), "not-constellation-points")
                      ELSE Clause(Len(e.llr) = NTx(e) * Nb(e), "length"))
     IN IF bad # <<>> THEN fails' = AddFails(fails, l, bad) /\ l' = l + 1 /\ UNCHANGED <<level, surv>>
        ELSE level' = NTx(e) /\ surv' = <<[x |-> <<>>, d |-> 0]>> /\ UNCHANGED <<l, fails>>
TreeLevel ==
  /\ level > 0
  /\ LET e  == Trace[l]
         ch == Children(e.z, e.r, e.c, e.con, level, surv)
         kp == Kept(ch, e.K)
     IN IF Ambiguous(ch, e.K) /\ (level > 1 \/ e.type = "soft")
        THEN level' = 0 /\ l' = l + 1 /\ surv' = <<>> /\ fails' = fails          \* ties: the survivors are not determined
        ELSE IF level > 1 THEN level' = level - 1 /\ surv' = kp /\ UNCHANGED <<l, fails>>
        ELSE /\ level' = 0 /\ l' = l + 1 /\ surv' = <<>>
             /\ fails' = AddFails(fails, l,
                  (IF e.type = "hard" THEN Clause(\E i \in 1..Len(kp) : kp[i].x = e.x /\ Rank(kp, i) = 0, "k-best-survivor")
                   ELSE Clause(MaxLogOK(e, [i \in 1..Len(kp) |-> kp[i].x]), "k-best-max-log"))
                  \o Clause(e.unchanged, "arguments-modified"))

TraceInit == l = Start /\ fails = <<>> /\ done = FALSE /\ level = 0 /\ surv = <<>>
TraceNext ==
  \/ l <= NTrace /\ done' = done /\ (Call \/ TreeRoot \/ TreeLevel)
  \/ l > NTrace /\ ~done /\ done' = TRUE /\ Verdict(fails) /\ UNCHANGED <<l, fails, level, surv>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
