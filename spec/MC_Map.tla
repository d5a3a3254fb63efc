------------------------------- MODULE MC_Map -------------------------------
(***************************************************************************)
(* Design model of forward-backward MAP decoding: over every sequence of   *)
(* small integer likelihood exponents, the forward-backward a-posteriori   *)
(* weights are those of a brute-force sum over all input sequences.        *)
(***************************************************************************)
EXTENDS ConvCode, BigNat

CONSTANT MaxLen
Vals == {-3, 0, 1, 2}
Decls == <<
  [k |-> 1, n |-> 2, mem |-> <<2>>, fmt |-> "MSB", g |-> <<<<5, 7>>>>, fb |-> <<>>, legacy |-> 0, rsc |-> 0],
  [k |-> 1, n |-> 2, mem |-> <<1>>, fmt |-> "MSB", g |-> <<<<1, 3>>>>, fb |-> <<<<3>>>>, legacy |-> 1, rsc |-> 1] >>
Trel == TLCEval([i \in DOMAIN Decls |-> TLCEval(Trellis(Machine(Decls[i])))])

\* forward: weights of the states; part[i][u]: weights of the paths with input u at time i, per end state
VARIABLES code, seen, forward, part
vars == <<code, seen, forward, part>>
T == Trel[code]

Expo(a, b) == IF a >= 0 THEN a * b ELSE (-a) * (1 - b)
Gamma(a, b, s, u) == LET o == T.out[s][u] IN 2^(Expo(a, o \div 2) + Expo(b, o % 2))

RECURSIVE SumIn(_, _, _, _, _, _)
SumIn(v, us, a, b, s, q) ==
  IF q < 0 THEN 0
  ELSE SumIn(v, us, a, b, s, q - 1) +
       (IF T.nst[q \div 2][q % 2] = s /\ (q % 2) \in us THEN v[q \div 2] * Gamma(a, b, q \div 2, q % 2) ELSE 0)
Step(v, us, a, b) == [s \in 0..(T.S - 1) |-> SumIn(v, us, a, b, s, 2 * T.S - 1)]

Init == /\ code \in DOMAIN Decls /\ seen = <<>> /\ part = <<>>
        /\ forward = [s \in 0..(T.S - 1) |-> IF s = 0 THEN 1 ELSE 0]

Next ==
  /\ Len(seen) < MaxLen /\ code' = code
  /\ \E a, b \in Vals :
       /\ seen' = Append(seen, <<a, b>>)
       /\ forward' = Step(forward, {0, 1}, a, b)
       /\ part' = [i \in 1..Len(seen) |-> [u \in 0..1 |-> Step(part[i][u], {0, 1}, a, b)]]
                  \o << [u \in 0..1 |-> Step(forward, {u}, a, b)] >>

Spec == Init /\ [][Next]_vars

RECURSIVE Weight(_, _, _)
Weight(w, i, s) ==
  IF i > Len(seen) THEN 1
  ELSE Gamma(seen[i][1], seen[i][2], s, w[i]) * Weight(w, i + 1, T.nst[s][w[i]])

RECURSIVE SumSet(_)
SumSet(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[2] + SumSet(S \ {x})
RECURSIVE SumVec(_, _)
SumVec(v, s) == IF s < 0 THEN 0 ELSE v[s] + SumVec(v, s - 1)

BruteForce ==
  \A i \in 1..Len(seen) : \A u \in 0..1 :
    SumVec(part[i][u], T.S - 1) =
      SumSet({<<w, Weight(w, 1, 0)>> : w \in {x \in [1..Len(seen) -> 0..1] : x[i] = u}})

\* BigNat against TLC's integers, on the numbers met
BigNatRight ==
  \A s, r \in 0..(T.S - 1) :
    LET x == forward[s] y == forward[r] IN
    /\ BnAdd(BnOf(x), BnOf(y)) = BnOf(x + y)
    /\ (x <= 30000 /\ y <= 30000) => BnMul(BnOf(x), BnOf(y)) = BnOf(x * y)
    /\ BnDiff(BnOf(x), BnOf(y)) = BnOf(IF x > y THEN x - y ELSE y - x)
    /\ BnCmp(BnOf(x), BnOf(y)) = (IF x > y THEN 1 ELSE IF x < y THEN -1 ELSE 0)
    /\ (x <= 30000) => BnMulPow2(BnOf(x), 15) = BnOf(x * 32768)
=============================================================================
