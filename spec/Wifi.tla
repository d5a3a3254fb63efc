-------------------------------- MODULE Wifi --------------------------------
(***************************************************************************)
(* The 802.11 transmitter: modulation and coding schemes 0 to 9, the       *)
(* punctured (133,171) code as an automaton over the transmitted bits.     *)
(***************************************************************************)
EXTENDS ConvCode, SequencesExt

\* <<points, rate numerator, rate denominator>>
McsTable == << <<2, 1, 2>>, <<4, 1, 2>>, <<4, 3, 4>>, <<16, 1, 2>>, <<16, 3, 4>>, <<64, 2, 3>>, <<64, 3, 4>>, <<64, 5, 6>>,
               <<256, 3, 4>>, <<256, 5, 6>> >>
Points(gmcs) == McsTable[gmcs + 1][1]
RateNum(gmcs) == McsTable[gmcs + 1][2]
RateDen(gmcs) == McsTable[gmcs + 1][3]
\* Transmitted (1) and stolen (0) bits, per rate numerator.
Pattern(gnum) == CASE gnum = 1 -> <<1, 1>> [] gnum = 2 -> <<1, 1, 1, 0>> [] gnum = 3 -> <<1, 1, 1, 0, 0, 1>>
                   [] gnum = 5 -> <<1, 1, 1, 0, 0, 1, 1, 0, 0, 1>>
Kept(gnum, gi) == Pattern(gnum)[((gi - 1) % Len(Pattern(gnum))) + 1] = 1     \* coded bit number gi

\* 133 = 1 011 011 and 171 = 1 111 001, current bit first.
WifiDecl == [k |-> 1, n |-> 2, mem |-> <<6>>, g |-> << <<91, 121>> >>, fb |-> <<>>, fmt |-> "Matlab", legacy |-> 0, rsc |-> 0]
WifiMachine == Machine(WifiDecl)

\* The same machine on a numbered register (newest element 32), fast to evaluate; MC_Wifi shows that they agree.
WBit(gs, gw) == (gs \div gw) % 2
WOut1(gs, gu) == (gu + WBit(gs, 16) + WBit(gs, 8) + WBit(gs, 2) + WBit(gs, 1)) % 2
WOut2(gs, gu) == (gu + WBit(gs, 32) + WBit(gs, 16) + WBit(gs, 8) + WBit(gs, 1)) % 2
WNext(gs, gu) == (gs \div 2) + 32 * gu

\* Transmitted bits of step gt (counted from 1).
StepOut(gs, gu, gt, gnum) ==
  (IF Kept(gnum, 2 * gt - 1) THEN <<WOut1(gs, gu)>> ELSE <<>>) \o (IF Kept(gnum, 2 * gt) THEN <<WOut2(gs, gu)>> ELSE <<>>)

\* The code as an acceptor: the message whose transmitted bits are gc, or the part of it that could be explained.
\* (A fold, because TLC evaluates the arguments of recursive operators again and again.)
RecoverStep(ga, gc, gnum) ==
  IF ga.pos > Len(gc) \/ ga.stuck THEN ga
  ELSE LET gx == StepOut(ga.reg, 0, ga.step, gnum)      \* an input of 1 complements both
           gn == Len(gx)
           gu == IF gc[ga.pos] = gx[1] THEN 0 ELSE 1
       IN IF ga.pos + gn - 1 > Len(gc) \/ (gn = 2 /\ gc[ga.pos + 1] # (gx[2] + gu) % 2) THEN [ga EXCEPT !.stuck = TRUE]
          ELSE [reg |-> WNext(ga.reg, gu), step |-> ga.step + 1, pos |-> ga.pos + gn, stuck |-> FALSE, msg |-> Append(ga.msg, gu)]
MessageOf(gc, gnum) ==
  FoldLeft(LAMBDA ga, gb : RecoverStep(ga, gc, gnum), [reg |-> 0, step |-> 1, pos |-> 1, stuck |-> FALSE, msg |-> <<>>], gc).msg
=============================================================================
