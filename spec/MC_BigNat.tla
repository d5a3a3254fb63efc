------------------------------ MODULE MC_BigNat -----------------------------
(***************************************************************************)
(* The laws of natural number arithmetic, checked on growing numbers, for  *)
(* the TLA+ definitions of BigNat (MC_BigNat_ref.cfg) and for the Java     *)
(* override of them (MC_BigNat.cfg).  nat is the value while it is small.  *)
(***************************************************************************)
EXTENDS BigNat
VARIABLES num, nat, steps
vars == <<num, nat, steps>>
Cap == 2000000
Init == \E n \in {0, 1, 7, 9999, 10000, 10001, 123456} : num = BnOf(n) /\ nat = n /\ steps = 0
Grow(v, n) == num' = v /\ nat' = (IF nat = -1 \/ n > Cap THEN -1 ELSE n)
Safe(a, b) == IF a = -1 \/ (b > 0 /\ a > Cap \div b) THEN Cap + 1 ELSE a * b
Next == /\ steps < 3 /\ steps' = steps + 1
        /\ \/ \E m \in {0, 1, 2, 9999, 65536} : Grow(BnMulSmall(num, m), Safe(nat, m))
           \/ \E m \in {1, 9999, 123456} : Grow(BnAdd(num, BnOf(m)), nat + m)
           \/ \E m \in {1, 13, 16, 40} : Grow(BnMulPow2(num, m), IF m < 20 THEN Safe(nat, 2^m) ELSE IF nat = 0 THEN 0 ELSE Cap + 1)
           \/ Grow(BnMul(num, num), Safe(nat, nat))
Spec == Init /\ [][Next]_vars
Others == {<<>>, <<1>>, <<9999>>, <<0, 1>>, <<9999, 9999>>, <<0, 0, 0, 1>>, <<5, 0, 17>>}
Canonical == num = <<>> \/ (num[Len(num)] # 0 /\ \A i \in 1..Len(num) : num[i] \in 0..9999)
Small == nat >= 0 => num = BnOf(nat)
Laws == \A o \in Others :
  /\ BnAdd(num, o) = BnAdd(o, num) /\ BnSub(BnAdd(num, o), o) = num /\ BnDiff(o, BnAdd(num, o)) = num
  /\ BnMul(num, o) = BnMul(o, num)
  /\ BnMul(num, BnAdd(o, <<1>>)) = BnAdd(BnMul(num, o), num)
  /\ BnCmp(BnAdd(num, o), num) = (IF o = <<>> THEN 0 ELSE 1) /\ BnCmp(num, o) = -BnCmp(o, num)
  /\ BnCmp(num, o) = 0 <=> num = o
  /\ BnMulSmall(num, 3) = BnAdd(num, BnAdd(num, num)) /\ BnMulPow2(num, 3) = BnMulSmall(num, 8)
  /\ BnMulPow2(num, 37) = BnMulPow2(BnMulPow2(num, 20), 17)
  /\ \A m \in {1, 2, 7, 9999, 10000, 199999} :
       LET q == BnDivSmall(num, m) r == BnSub(num, BnMulSmall(q, m)) IN BnCmp(r, BnOf(m)) < 0 /\ BnDivSmall(BnMulSmall(num, m), m) = num
  /\ \A j \in 0..3 : BnCmp(BnSub(num, BnMul(BnDrop(num, j), [i \in 1..j |-> 0] \o <<1>>)), [i \in 1..j |-> 0] \o <<1>>) < 0
  /\ BnNorm(num \o <<0, 0>>) = num
=============================================================================
