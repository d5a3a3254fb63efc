-------------------------------- MODULE Noise -------------------------------
(***************************************************************************)
(* Sample statistics of white Gaussian streams.  A stream is a sequence of *)
(* complex samples <<re, im>> (im = 0 when it is real) in units of about a *)
(* fiftieth of its standard deviation; it arrives in batches, one per call *)
(* of the channel, and the accumulator does not know where batches end.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Acc0 == [n |-> 0, s |-> <<0, 0>>, ss |-> <<0, 0>>, x |-> 0, lag |-> <<0, 0>>, in |-> <<0, 0>>, out |-> <<0, 0>>, prev |-> <<0, 0>>]
OneIf(gb) == IF gb THEN 1 ELSE 0
\* in / out count the samples within 0.6745 (half of them) and beyond 2 standard deviations; gv the variances.
Inside(gx, gv)  == 1000 * gx * gx <= 455 * gv
Outside(gx, gv) == gx * gx > 4 * gv
AddSample(ga, gz, gv) ==
  [n    |-> ga.n + 1,
   s    |-> <<ga.s[1] + gz[1], ga.s[2] + gz[2]>>,
   ss   |-> <<ga.ss[1] + gz[1] * gz[1], ga.ss[2] + gz[2] * gz[2]>>,
   x    |-> ga.x + gz[1] * gz[2],
   lag  |-> <<ga.lag[1] + ga.prev[1] * gz[1], ga.lag[2] + ga.prev[2] * gz[2]>>,
   in   |-> <<ga.in[1] + OneIf(Inside(gz[1], gv[1])), ga.in[2] + OneIf(Inside(gz[2], gv[2]))>>,
   out  |-> <<ga.out[1] + OneIf(Outside(gz[1], gv[1])), ga.out[2] + OneIf(Outside(gz[2], gv[2]))>>,
   prev |-> gz]
AddBatch(ga, gb, gv) == FoldLeft(LAMBDA acc, z : AddSample(acc, z, gv), ga, gb)
\* Products of two streams, component by component.
AddPairs(gp, ga, gb) ==
  FoldLeft(LAMBDA acc, i : <<acc[1] + ga[i][1] * gb[i][1], acc[2] + ga[i][1] * gb[i][2], acc[3] + ga[i][2] * gb[i][1], acc[4] + ga[i][2] * gb[i][2]>>,
           gp, [i \in 1..Len(ga) |-> i])

\* Integer square root, rounded up, of numbers below 10^6.
Root(gn) == CHOOSE gr \in 0..1000 : gr * gr >= gn /\ (gr = 0 \/ (gr - 1) * (gr - 1) < gn)
AbsN(gx) == IF gx < 0 THEN -gx ELSE gx

(* Acceptance: seven standard deviations of each statistic, and the effect *)
(* of rounding.  gv is <<variance of re, variance of im>> in squared units.*)
MeanOK(ga, gv, gc) == LET gs == Root(gv[gc]) IN AbsN(ga.s[gc]) <= 7 * Root(ga.n) * gs + ga.n
PowerOK(ga, gv, gc) ==        \* |ss/n - v| <= 7 v sqrt(2/n) + 2
  AbsN(ga.ss[gc] \div ga.n - gv[gc]) <= (10 * gv[gc]) \div Root(ga.n) + gv[gc] \div 500 + 2
UncorOK(gsum, gn, gva, gvb) ==  \* |sum/n| <= 7 sqrt(va vb / n)
  AbsN(gsum \div gn) <= (7 * Root(gva) * Root(gvb)) \div Root(gn) + 2
ShapeOK(ga, gc) ==
  /\ AbsN(ga.in[gc] - ga.n \div 2) <= (7 * Root(ga.n)) \div 2 + ga.n \div 60
  /\ AbsN(1000 * ga.out[gc] - (455 * ga.n) \div 10) <= 7 * 210 * Root(ga.n) + 5 * ga.n
StreamFails(ga, gv) ==
  LET gcs == {gc \in {1, 2} : gv[gc] > 0}
      ok(P(_)) == \A gc \in gcs : P(gc)
  IN (IF \A gc \in {1, 2} : gv[gc] = 0 => ga.ss[gc] = 0 THEN <<>> ELSE <<"noise-where-none-is-declared">>)
  \o (IF \A gc \in gcs : MeanOK(ga, gv, gc) THEN <<>> ELSE <<"mean">>)
  \o (IF \A gc \in gcs : PowerOK(ga, gv, gc) THEN <<>> ELSE <<"variance">>)
  \o (IF gv[1] > 0 /\ gv[2] > 0 => UncorOK(ga.x, ga.n, gv[1], gv[2]) THEN <<>> ELSE <<"circular">>)
  \o (IF \A gc \in gcs : UncorOK(ga.lag[gc], ga.n, gv[gc], gv[gc]) THEN <<>> ELSE <<"independent-in-time">>)
  \o (IF \A gc \in gcs : ShapeOK(ga, gc) THEN <<>> ELSE <<"gaussian">>)
PairFails(gp, gn, gva, gvb) ==
  IF \A gk \in 1..4 : LET ga == gva[IF gk <= 2 THEN 1 ELSE 2] gb == gvb[IF gk \in {1, 3} THEN 1 ELSE 2]
                      IN ga > 0 /\ gb > 0 => UncorOK(gp[gk], gn, ga, gb)
  THEN <<>> ELSE <<"streams-independent">>
\* The products of two streams estimate the declared products gx (components re re, re im, im re, im im).
CorOK(gp, gn, gx, gva, gvb) ==
  \A gk \in 1..4 : AbsN(gp[gk] \div gn - gx[gk]) <=
     (10 * Root(gva[IF gk <= 2 THEN 1 ELSE 2]) * Root(gvb[IF gk \in {1, 3} THEN 1 ELSE 2])) \div Root(gn) + 3
=============================================================================
