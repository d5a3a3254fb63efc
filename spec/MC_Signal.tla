------------------------------ MODULE MC_Signal -----------------------------
(***************************************************************************)
(* The closed mathematics behind C26, C27 and C29, for every case within   *)
(* the bounds.  The state is the case.                                     *)
(***************************************************************************)
EXTENDS Signal, Bitwise, IOUtils
VARIABLES kind, par, reg, t, ones
vars == <<kind, par, reg, t, ones>>
Deep == IOEnv.TIER # "quick"
MaxOrder == IF Deep THEN 9 ELSE 7
MaxZc == IF Deep THEN 36 ELSE 22

\* The register runs with the connection polynomial x^n + sum mask[i] x^(n-i).
MaskPoly(n, v) == 2^n + v                    \* mask[i] is the bit of weight 2^(n-i)
MaskOf(n, v) == [i \in 1..n |-> (v \div 2^(n - i)) % 2]
OrderOf(p, n) == LET RECURSIVE go(_, _)
                     go(y, e) == LET z == IF 2 * y >= 2^n THEN (2 * y) ^^ p ELSE 2 * y
                                 IN IF z = 1 THEN e + 1 ELSE IF e > 2^n THEN 0 ELSE go(z, e + 1)
                 IN IF p % 2 = 0 THEN 0 ELSE go(1, 0)
Primitive(n, v) == OrderOf(MaskPoly(n, v), n) = 2^n - 1

Init ==
  \/ /\ kind = "pn" /\ par \in UNION {{<<n, v>> : v \in 1..(2^n - 1)} : n \in 2..MaxOrder}
     /\ reg = MaskOf(par[1], 1) /\ t = 0 /\ ones = 0 /\ Primitive(par[1], par[2])
  \/ /\ kind = "zc" /\ par \in {p \in (2..MaxZc) \X (1..MaxZc) \X (0..3) : ZcValid(p[2], p[1])}
     /\ reg = <<>> /\ t = 1 /\ ones = 0
  \/ /\ kind = "ofdm" /\ par \in {p \in (2..40) \X (1..20) : 2 * p[2] <= p[1] - 1}
     /\ reg = <<>> /\ t = 0 /\ ones = 0
  \/ /\ kind = "dft" /\ par \in [1..4 -> {<<0, 0>>, <<1, 0>>, <<0, -1>>, <<2, 1>>}]
     /\ reg = <<>> /\ t = 0 /\ ones = 0

PnMask == MaskOf(par[1], par[2])
Next ==
  \/ /\ kind = "pn" /\ t < 2^par[1] - 1
     /\ reg' = LfsrNext(reg, PnMask) /\ ones' = ones + LfsrOut(reg) /\ t' = t + 1 /\ UNCHANGED <<kind, par>>
  \/ /\ kind = "zc" /\ t < par[1] - 1 /\ t' = t + 1 /\ UNCHANGED <<kind, par, reg, ones>>
Spec == Init /\ [][Next]_vars

\* C26: primitive taps: every nonzero register is visited before the first returns, one more one than zeros.
Seed == MaskOf(par[1], 1)
PnPeriod == kind = "pn" => (reg = Seed <=> t \in {0, 2^par[1] - 1}) /\ \E i \in 1..par[1] : reg[i] = 1
PnBalance == kind = "pn" /\ t = 2^par[1] - 1 => ones = 2^(par[1] - 1)
\* C27: for a lag t, the products x(n) conj(x(n+t)) are the rotations of a nontrivial group: their sum is zero.
ZcLag == kind = "zc" =>
  LET n2 == 2 * par[1]
      d(n) == (ZcIndex(par[2], par[1], par[3], (n + t) % par[1]) - ZcIndex(par[2], par[1], par[3], n) + n2) % n2
      s == {d(n) : n \in 0..(par[1] - 1)}
      g == par[1] \div Gcd(par[1], t)         \* order of the group of steps
  IN /\ g > 1 /\ Cardinality(s) = g
     /\ \A x, y \in s : ((x - y + n2) % n2) % (n2 \div g) = 0
     /\ \A x \in s : Cardinality({n \in 0..(par[1] - 1) : d(n) = x}) = par[1] \div g
\* C29: every data index has exactly one bin, never bin 0, negative and positive carriers mirror each other.
Layout == kind = "ofdm" =>
  LET nfft == par[1]
      nsc == 2 * par[2]
  IN /\ CarrierOf(0, nfft, nsc) = 0
     /\ \A c \in 1..nsc : Cardinality({b \in 0..(nfft - 1) : CarrierOf(b, nfft, nsc) = c}) = 1
     /\ \A b \in 1..(nfft - 1) : (CarrierOf(b, nfft, nsc) # 0) <=> (CarrierOf(nfft - b, nfft, nsc) # 0)
     /\ \A c \in 1..nsc : CarrierOf(BinOf(c, nfft, nsc), nfft, nsc) = c
     /\ LET col == [i \in 1..nsc |-> <<i, -i>>] IN DataOf(BinsOf(col, nfft), nsc) = col
DftInverse == kind = "dft" => /\ SmallDft(SmallIdft(par)) = [i \in 1..4 |-> <<4 * par[i][1], 4 * par[i][2]>>]
                              /\ LET p == SubSeq(par, 1, 2) IN SmallDft(SmallIdft(p)) = [i \in 1..2 |-> <<2 * p[i][1], 2 * p[i][2]>>]
=============================================================================
