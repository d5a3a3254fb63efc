------------------------------ MODULE MC_Galois -----------------------------
(***************************************************************************)
(* Design model of the fields: the shift register x -> alpha x visits      *)
(* every nonzero element (the table is primitive), the arithmetic obeys    *)
(* the field laws, orbits are the conjugacy classes, minimal polynomials   *)
(* are irreducible, and the divisor count agrees with brute force.         *)
(***************************************************************************)
EXTENDS Galois
CONSTANTS MaxM
VARIABLES mm, reg, steps
vars == <<mm, reg, steps>>
Init == mm \in 1..MaxM /\ reg = 1 /\ steps = 0
Next == /\ steps < 2^mm - 1
        /\ reg' = FMul(mm, reg, Alpha(mm)) /\ steps' = steps + 1 /\ mm' = mm
Spec == Init /\ [][Next]_vars
InField   == reg \in 1..(2^mm - 1)
Primitive == (reg = 1) <=> (steps = 0 \/ steps = 2^mm - 1)
PowerLaw  == reg = FPow(mm, Alpha(mm), steps)
OrderLaw  == LET RECURSIVE Gcd(_, _) Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
             IN IsOrder(mm, reg, (2^mm - 1) \div Gcd(2^mm - 1, steps))
Frobenius == Cardinality(Orbit(mm, reg)) <= mm /\ mm % Cardinality(Orbit(mm, reg)) = 0
Laws == mm > 5 \/ \A a \in 0..(2^mm - 1) :
          /\ FMul(mm, a, reg) = FMul(mm, reg, a)
          /\ (a # 0 => FMul(mm, a, reg) # 0)
          /\ \A b \in 0..(IF mm > 3 THEN 3 ELSE 2^mm - 1) : FMul(mm, a ^^ b, reg) = FMul(mm, a, reg) ^^ FMul(mm, b, reg)
                                                          /\ FMul(mm, FMul(mm, a, b), reg) = FMul(mm, a, FMul(mm, b, reg))
\* exactly one polynomial qualifies as minimal polynomial and none of smaller degree vanishes
MinPoly == mm > 6 \/ /\ Cardinality({p \in 2..(2^(mm + 1) - 1) : IsMinPoly(mm, p, reg)}) = 1
                     /\ \A p \in 2..(2^Cardinality(Orbit(mm, reg)) - 1) : EvalAt(mm, p, reg) # 0
ASSUME \A m \in 1..16 : IsOrder(m, Alpha(m), 2^m - 1)
Bits(v, n) == [i \in 1..n |-> (v \div 2^(i - 1)) % 2]
ASSUME \A n \in {1, 3, 5, 7, 9} : \A d \in 1..(n - 1) :
  NumDivisors(n, d) = Cardinality({v \in 2^d..(2^(d + 1) - 1) : PRem(XnPlus1(n), Bits(v, d + 1)) = <<>>})
ASSUME \A a, b \in 1..20 : PRem(PTrim(PMul(PTrim(Bits(a, 6)), PTrim(Bits(b, 6)))), PTrim(Bits(b, 6))) = <<>>
=============================================================================
