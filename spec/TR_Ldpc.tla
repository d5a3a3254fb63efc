------------------------------- MODULE TR_Ldpc ------------------------------
(***************************************************************************)
(* Trace specification of the LDPC module.                                 *)
(*  C12: design files are a store path -> graph; reading gives the graph.  *)
(*  C13: systematic encoding block by block.                               *)
(*  C14: belief propagation as a state machine, one action per iteration.  *)
(***************************************************************************)
EXTENDS Ldpc, TraceKit
VARIABLES l, fails, done, store, blk, iter, msgs, total
vars == <<l, fails, done, store, blk, iter, msgs, total>>

Graphs == Trace[1].graphs

SetOf(s) == {s[i] : i \in 1..Len(s)}
RowSet(gr, c) == SetOf(gr.rows[c])
ColSet(gr, v) == {gr.cols[v][j][1] : j \in 1..Len(gr.cols[v])}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

\* A flattened table [n][width] of 0-based entries, the first deg[i] of each row being used.
TableOK(tab, deg, n, width, want(_), lim) ==
  /\ Len(tab) = n * width /\ Len(deg) = n
  /\ \A i \in 1..n :
       /\ deg[i] = Cardinality(want(i)) /\ deg[i] <= width
       /\ {tab[(i - 1) * width + j] + 1 : j \in 1..deg[i]} = want(i)
       /\ \A j \in (deg[i] + 1)..width : LET x == tab[(i - 1) * width + j] IN x < 0 \/ x >= lim
\* Position tables: the partner of edge (i, j) is found at position p of the other table.
MapOK(map, tab, deg, n, width, otab, odeg, owidth) ==
  /\ Len(map) = n * width
  /\ \A i \in 1..n :
       /\ \A j \in 1..deg[i] :
            LET o == tab[(i - 1) * width + j]
                p == map[(i - 1) * width + j]
            IN p >= 0 /\ p < odeg[o + 1] /\ otab[o * owidth + p + 1] = i - 1
       /\ \A j \in (deg[i] + 1)..width : LET x == map[(i - 1) * width + j] IN x < 0 \/ x >= owidth

VerifyParams(e, gr) ==
  IF Raised(e) THEN <<"design-file-rejected">>
  ELSE LET m  == Len(gr.rows)
           ct == e.n_vnodes = gr.n /\ e.n_cnodes = m
                 /\ e.max_cnode_deg = MaxOf({Len(gr.rows[c]) : c \in 1..m})
                 /\ e.max_vnode_deg = MaxOf({Len(gr.cols[v]) : v \in 1..gr.n})
           ca == ct /\ TableOK(e.cnode_adj, e.cnode_deg, m, e.max_cnode_deg, LAMBDA c : RowSet(gr, c), gr.n)
           va == ct /\ TableOK(e.vnode_adj, e.vnode_deg, gr.n, e.max_vnode_deg, LAMBDA v : ColSet(gr, v), m)
       IN Clause(ct, "dimensions")
       \o Clause(ct => ca, "check-adjacency")
       \o Clause(ct => va, "variable-adjacency")
       \o Clause((ca /\ va) => MapOK(e.cv_map, e.cnode_adj, e.cnode_deg, m, e.max_cnode_deg,
                                     e.vnode_adj, e.vnode_deg, e.max_vnode_deg), "check-position-table")
       \o Clause((ca /\ va) => MapOK(e.vc_map, e.vnode_adj, e.vnode_deg, gr.n, e.max_vnode_deg,
                                     e.cnode_adj, e.cnode_deg, e.max_cnode_deg), "variable-position-table")
       \o (IF ~Has(e, "h") THEN <<>>
           ELSE Clause(Len(e.h) = m /\ \A c \in 1..m : {x + 1 : x \in SetOf(e.h[c])} = RowSet(gr, c) /\ Len(e.h[c]) = Len(gr.rows[c]),
                       "parity-check-matrix"))
       \o (IF ~Has(e, "gcols") THEN <<>>
           ELSE Clause(\A i \in 1..Len(e.gcols) :
                  LET j   == e.gcols[i].j                    \* message bit
                      col == e.gcols[i].col                  \* its parity bits
                      k   == gr.n - m
                      w   == TLCEval([v \in 1..gr.n |-> IF v = j THEN 1 ELSE IF v > k THEN col[v - k] % 2 ELSE 0])
                  IN Len(col) = m /\ (\A v \in 1..m : col[v] > -2000000000 /\ col[v] < 2000000000) /\ IsCodeword(gr, w),
                "generator-matrix"))

Params ==
  /\ Trace[l].ev = "params"
  /\ LET e == Trace[l]
         known == e.path \in DOMAIN store
     IN fails' = AddFails(fails, l, VerifyParams(e, Graphs[IF known THEN store[e.path] ELSE e.g]))
  /\ UNCHANGED <<store, blk, iter, msgs, total>> /\ l' = l + 1

\* The library writes a matrix to a design file; what is stored is the graph itself, as the format documents it.
VerifyWrite(e, gr) ==
  IF Raised(e) THEN <<"write-raised">>
  ELSE LET m == Len(gr.rows) IN
       Clause(Len(e.lines) >= 4 + gr.n + m, "file-length")
    \o Clause(Len(e.lines) >= 4 + gr.n + m =>
          /\ e.lines[1] = <<gr.n, m>>
          /\ e.lines[2] = <<MaxOf({Len(gr.cols[v]) : v \in 1..gr.n}), MaxOf({Len(gr.rows[c]) : c \in 1..m})>>
          /\ e.lines[3] = [v \in 1..gr.n |-> Len(gr.cols[v])]
          /\ e.lines[4] = [c \in 1..m |-> Len(gr.rows[c])], "file-header")
    \o Clause(Len(e.lines) >= 4 + gr.n + m =>
          /\ \A v \in 1..gr.n : SetOf(e.lines[4 + v]) = ColSet(gr, v) /\ Len(e.lines[4 + v]) = Len(gr.cols[v])
          /\ \A c \in 1..m : SetOf(e.lines[4 + gr.n + c]) = RowSet(gr, c) /\ Len(e.lines[4 + gr.n + c]) = Len(gr.rows[c]),
          "file-lists")
    \o Clause(e.unchanged, "arguments-modified")
Write ==
  /\ Trace[l].ev = "write"
  /\ LET e == Trace[l] IN
     /\ fails' = AddFails(fails, l, VerifyWrite(e, Graphs[e.g]))
     /\ store' = IF Raised(e) THEN store ELSE (e.path :> e.g) @@ store
  /\ UNCHANGED <<blk, iter, msgs, total>> /\ l' = l + 1

---------------------------------------------------------------------------
VerifyEnc(e, gr) ==
  LET m == Len(gr.rows)
      k == gr.n - m
      fits == Len(e.msg) % k = 0
      nb == (Len(e.msg) + k - 1) \div k
      Bit(i) == IF i <= Len(e.msg) THEN e.msg[i] ELSE 0
  IN IF ~fits /\ ~e.pad THEN Clause(e.exc = "ValueError", "unpadded-message-accepted")
     ELSE IF Raised(e) THEN <<"encoding-raised">>
     ELSE Clause(e.shape = IF nb = 1 THEN <<gr.n>> ELSE <<gr.n, nb>>, "shape")
       \o Clause(Len(e.words) = nb /\ \A b \in 1..Len(e.words) : Len(e.words[b]) = gr.n /\ \A v \in 1..gr.n : e.words[b][v] \in {0, 1}, "words")
       \o (IF Len(e.words) # nb \/ (\E b \in 1..nb : Len(e.words[b]) # gr.n) THEN <<>>
           ELSE Clause(\A b \in 1..nb : \A i \in 1..k : e.words[b][i] = Bit((b - 1) * k + i), "systematic-part")
             \o Clause(\A b \in 1..nb : IsCodeword(gr, e.words[b]), "parity-checks"))
       \o Clause(e.unchanged, "arguments-modified")
Enc ==
  /\ Trace[l].ev = "enc"
  /\ fails' = AddFails(fails, l, VerifyEnc(Trace[l], Graphs[Trace[l].g]))
  /\ UNCHANGED <<store, blk, iter, msgs, total>> /\ l' = l + 1

---------------------------------------------------------------------------
(* Belief propagation: Begin, then per block Open, Iterate*, Close.        *)
Odds(e) == e.mode = "odds"
Lim(e) == IF e.mode = "exact" THEN 2000 ELSE 500
Block(e) == IF Odds(e) THEN e.llr[blk] ELSE TLCEval([i \in 1..Len(e.llr[blk]) |-> Clip(e.llr[blk][i], Lim(e))])
Word(e, tt) == [v \in 1..Len(tt) |-> IF Odds(e) THEN SpaHard(tt[v]) ELSE Hard(tt[v])]
Close_(e, tt) == Odds(e) /\ \E v \in 1..Len(tt) : SpaClose(tt[v])

Malformed(e, gr) ==
  LET nb == Len(e.llr) IN
  Raised(e) \/ Len(e.dec) # nb \/ Len(e.out) # nb
  \/ \E b \in 1..nb : Len(e.dec[b]) # gr.n \/ Len(e.out[b]) # gr.n
BpBegin ==
  /\ blk = 0 /\ Trace[l].ev = "bp"
  /\ LET e == Trace[l]
         gr == Graphs[e.g]
         nb == Len(e.llr)
     IN IF Malformed(e, gr)
        THEN fails' = AddFails(fails, l, IF Raised(e) THEN <<"decoding-raised">> ELSE <<"shape">>) /\ l' = l + 1 /\ blk' = 0
        ELSE /\ fails' = AddFails(fails, l, Clause(e.shape = IF nb = 1 THEN <<gr.n>> ELSE <<gr.n, nb>>, "shape"))
             /\ blk' = 1 /\ l' = l
  /\ UNCHANGED <<store, iter, msgs, total>>
BpOpen ==
  /\ blk > 0 /\ iter = -1
  /\ LET e == Trace[l]
         gr == Graphs[e.g]
         ll == Block(e)
     IN /\ msgs' = IF Odds(e) THEN SpaStart(gr, ll) ELSE MsaStart(gr, ll)
        /\ total' = IF Odds(e) THEN TLCEval([v \in 1..gr.n |-> Pow2Odds(ll[v])]) ELSE ll
  /\ iter' = 0 /\ UNCHANGED <<l, fails, store, blk>>
Stopped(e) == iter = e.iters \/ IsCodeword(Graphs[e.g], Word(e, total))
Unsure(e) == iter > 0 /\ Close_(e, total)
BpIterate ==
  /\ blk > 0 /\ iter >= 0 /\ ~Stopped(Trace[l]) /\ ~Unsure(Trace[l])
  /\ LET e  == Trace[l]
         gr == Graphs[e.g]
         ll == Block(e)
     IN IF Odds(e)
        THEN LET so == SpaCheck(gr, msgs) IN total' = SpaTotal(gr, ll, so) /\ msgs' = SpaVar(gr, ll, so)
        ELSE LET out == MsaCheck(gr, msgs)
                 tt  == MsaTotal(gr, ll, out)
             IN total' = tt /\ msgs' = MsaVar(gr, tt, out)
  /\ iter' = iter + 1 /\ UNCHANGED <<l, fails, store, blk>>
Tol == <<0, 10>>     \* 1e-5 relative
BpClose ==
  /\ blk > 0 /\ iter >= 0 /\ (Stopped(Trace[l]) \/ Unsure(Trace[l]))
  /\ LET e  == Trace[l]
         ob == e.out[blk]
         n  == Len(total)
     IN fails' = AddFails(fails, l,
          IF Unsure(e) THEN <<>>
          ELSE Clause(e.dec[blk] = Word(e, total), "bits")
            \o Clause(CASE e.mode = "exact" -> ob = total
                        [] e.mode = "odds"  -> \A v \in 1..n : FloatWithin(ob[v], total[v][1], total[v][2], Tol)
                        [] e.mode = "erase" -> \A v \in 1..n : Sgn(ob[v]) = Sgn(total[v]), "llrs"))
  /\ iter' = -1 /\ msgs' = <<>> /\ total' = <<>>
  /\ IF blk = Len(Trace[l].llr) THEN blk' = 0 /\ l' = l + 1 ELSE blk' = blk + 1 /\ l' = l
  /\ UNCHANGED store

\* An unknown algorithm is refused when there is anything to do.
BadAlg ==
  /\ blk = 0 /\ Trace[l].ev = "badalg"
  /\ LET e == Trace[l] gr == Graphs[e.g]
     IN fails' = AddFails(fails, l, Clause(Raised(e) \/ e.iters = 0 \/ IsCodeword(gr, [v \in 1..gr.n |-> Hard(e.llr[v])]), "unknown-algorithm-accepted"))
  /\ UNCHANGED <<store, blk, iter, msgs, total>> /\ l' = l + 1

Head_ == Trace[l].ev = "graphs" /\ l' = l + 1
         /\ fails' = AddFails(fails, l, Clause(\A i \in 1..Len(Graphs) : GraphOK(Graphs[i]), "DRIVER-graph"))
         /\ UNCHANGED <<store, blk, iter, msgs, total>>

TraceInit == l = Start /\ fails = <<>> /\ done = FALSE /\ store = <<>> /\ blk = 0 /\ iter = -1 /\ msgs = <<>> /\ total = <<>>
TraceNext ==
  \/ l <= NTrace /\ done' = done /\ (Head_ \/ Params \/ Write \/ Enc \/ BadAlg \/ BpBegin \/ BpOpen \/ BpIterate \/ BpClose)
  \/ l > NTrace /\ ~done /\ done' = TRUE /\ Verdict(fails) /\ UNCHANGED <<l, fails, store, blk, iter, msgs, total>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
