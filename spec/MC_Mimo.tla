------------------------------- MODULE MC_Mimo ------------------------------
(***************************************************************************)
(* Transport of every message over every small MIMO link: after use u the  *)
(* receiver holds exactly the first u * nt * nb coded bits, and the message *)
(* can be read off in the end (C33).                                       *)
(***************************************************************************)
EXTENDS Transport, IOUtils
VARIABLES cfg, msg, air, got
vars == <<cfg, msg, air, got>>
MaxLen == IF IOEnv.TIER = "quick" THEN 6 ELSE 8
Configs == {c \in [nt : 1..3, nb : 1..2, rep : 1..2, n : 1..MaxLen] :
              (c.n * c.rep) % (c.nt * c.nb) = 0 /\ c.n * c.rep <= MaxLen}
\* Every repetition code up to rotation of the coded positions.
SrcOf(c, r) == [k \in 1..(c.n * c.rep) |-> ((((k - 1 + r) % (c.n * c.rep)) \div c.rep) + 1)]
Init == \E c \in Configs : \E r \in 0..(c.n * c.rep - 1) :
          /\ cfg = [c EXCEPT !.rep = @] @@ [src |-> SrcOf(c, r)]
          /\ msg \in [1..c.n -> 0..1]
          /\ air = <<>> /\ got = <<>>
Coded == EncodeT(msg, cfg.src)
Uses == Len(cfg.src) \div (cfg.nt * cfg.nb)
\* The channel carries one use at a time; the receiver turns labels back to bits antenna by antenna.
Use ==
  /\ Len(air) < Uses
  /\ LET u == UseSymbols(LabelsOf(Coded, cfg.nb), cfg.nt, Len(air) + 1)
     IN /\ air' = Append(air, u)
        /\ got' = got \o [k \in 1..(cfg.nt * cfg.nb) |-> LabelBit(u[((k - 1) \div cfg.nb) + 1], ((k - 1) % cfg.nb) + 1, cfg.nb)]
  /\ UNCHANGED <<cfg, msg>>
Spec == Init /\ [][Use]_vars
Prefix == got = SubSeq(Coded, 1, Len(got)) /\ Len(got) = Len(air) * cfg.nt * cfg.nb
SliceOK == \A u \in 1..Len(air) : SubSeq(got, (u - 1) * cfg.nt * cfg.nb + 1, u * cfg.nt * cfg.nb) = UseBits(Coded, cfg.nt, cfg.nb, u)
Readable == Len(air) = Uses => Consistent(got, cfg.src) /\ \A k \in 1..Len(cfg.src) : got[k] = msg[cfg.src[k]]
=============================================================================
