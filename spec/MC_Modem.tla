------------------------------- MODULE MC_Modem -----------------------------
(***************************************************************************)
(* Design model of a modem: constellation assignments (accepted and        *)
(* rejected), modulation, bounded noise, nearest point detection.          *)
(***************************************************************************)
EXTENDS Modem
CONSTANTS Side, MaxBits
VARIABLES points, message, noisy
vars == <<points, message, noisy>>
Grid == {<<3 * a, 3 * b>> : a, b \in 0..Side}
Air == (0..(3 * Side)) \X (0..(3 * Side))
Seqs(n) == {f \in [1..n -> Grid] : \A i, j \in 1..n : i # j => f[i] # f[j]}
Offers == {f \in Seqs(2) \cup Seqs(3) \cup Seqs(4) : f[1] = <<0, 0>> /\ (Len(f) = 4 => f[2] = <<0, 6>>)}
Init == points = << <<0, 0>>, <<3 * Side, 3 * Side>> >> /\ message = <<>> /\ noisy = <<>>
Assign(c) == /\ points' = IF IsPow2(Len(c)) THEN c ELSE points
             /\ message' = <<>> /\ noisy' = <<>>
Send(b) == /\ message = <<>> /\ Len(b) % Log2(Len(points)) = 0
           /\ message' = b /\ noisy' = ModulateL(points, b) /\ UNCHANGED <<points>>
\* noise below half the distance to every other point
Disturb(i, y) == /\ \A p \in 1..Len(points) : \A q \in 1..Len(points) :
                       (points[p] = noisy[i] /\ p # q) => 4 * Dist2(points[p], y) < Dist2(points[p], points[q])
                 /\ noisy[i] \in {points[p] : p \in 1..Len(points)}
                 /\ noisy' = [noisy EXCEPT ![i] = y] /\ UNCHANGED <<points, message>>
Next == \/ message = <<>> /\ \E c \in Offers : Assign(c)
        \/ \E n \in 1..MaxBits : \E b \in [1..n -> 0..1] : Send(b)
        \/ \E i \in 1..Len(noisy) : \E y \in Air : Disturb(i, y)
Spec == Init /\ [][Next]_vars
Valid == IsPow2(Len(points))
Detected == \A i \in 1..Len(noisy) :
  LET nb == Log2(Len(points))
      v  == ToLabel(message, (i - 1) * nb + 1, i * nb)
  IN {w \in 0..(Len(points) - 1) : Dist2(points[w + 1], noisy[i]) = MinDist2(points, noisy[i])} = {v}
Roundtrip == \A nb \in 1..4 : \A v \in 0..(2^nb - 1) : ToLabel(ToBits(v, nb), 1, nb) = v
\* the gray square constellations exist: reflected code on each axis
Gray(i) == XorN(i, i \div 2)
GrayQam(m) == LET r == 2^(Log2(m) \div 2) IN
  [v \in 1..m |-> LET ix == CHOOSE i \in 0..(r - 1) : Gray(i) = (v - 1) \div r
                      iy == CHOOSE i \in 0..(r - 1) : Gray(i) = (v - 1) % r IN <<2 * ix - r + 1, 2 * iy - r + 1>>]
ASSUME \A m \in {4, 16, 64} : GrayAt(GrayQam(m), 4) /\ {GrayQam(m)[i] : i \in 1..m} = OddGrid(m, 1)
=============================================================================
