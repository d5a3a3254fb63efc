------------------------------ MODULE MC_Wifi -------------------------------
(***************************************************************************)
(* The transmitter run bit by bit for every MCS: the acceptor recovers the *)
(* message from the transmitted bits whatever it is (the punctured code is *)
(* instantaneously decodable without errors), and the rate is met.         *)
(***************************************************************************)
EXTENDS Wifi, IOUtils
VARIABLES mcs, msg, regs, code
vars == <<mcs, msg, regs, code>>
Longest == IF IOEnv.TIER = "quick" THEN 7 ELSE 11
Reg == 32 * regs[1][1] + 16 * regs[1][2] + 8 * regs[1][3] + 4 * regs[1][4] + 2 * regs[1][5] + regs[1][6]
M == WifiMachine
Init == mcs \in 0..9 /\ msg = <<>> /\ regs = ZeroRegs(M) /\ code = <<>>
Next == /\ Len(msg) < Longest
        /\ \E u \in {0, 1} :
             LET o == ClockOut(M, regs, <<u>>)
                 t == Len(msg) + 1
             IN /\ msg' = Append(msg, u)
                /\ code' = code \o (IF Kept(RateNum(mcs), 2 * t - 1) THEN <<o[1]>> ELSE <<>>)
                                \o (IF Kept(RateNum(mcs), 2 * t) THEN <<o[2]>> ELSE <<>>)
                /\ regs' = ClockNext(M, regs, <<u>>)
        /\ mcs' = mcs
Spec == Init /\ [][Next]_vars
Recovers == MessageOf(code, RateNum(mcs)) = msg
RateMet == (Len(msg) % RateNum(mcs)) = 0 => Len(code) * RateNum(mcs) = Len(msg) * RateDen(mcs)
NumberedRegister == \A u \in {0, 1} : /\ <<WOut1(Reg, u), WOut2(Reg, u)>> = ClockOut(M, regs, <<u>>)
                                      /\ LET r == ClockNext(M, regs, <<u>>)
                                         IN WNext(Reg, u) = 32 * r[1][1] + 16 * r[1][2] + 8 * r[1][3] + 4 * r[1][4] + 2 * r[1][5] + r[1][6]
=============================================================================
