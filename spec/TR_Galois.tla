------------------------------ MODULE TR_Galois -----------------------------
(***************************************************************************)
(* Trace specification of the Galois field objects, binary polynomials,    *)
(* cosets, minimal polynomials and cyclic generator polynomials.           *)
(* C09, C10, C11.                                                          *)
(***************************************************************************)
EXTENDS Galois, TraceKit
VARIABLES l, fails, done
vars == <<l, fails, done>>

InF(m, v) == v >= 0 /\ v < 2^m
AllIn(m, vs) == \A i \in 1..Len(vs) : InF(m, vs[i])

VerifyOp(e) ==
  IF Raised(e) THEN (IF Len(e.a) # Len(e.b) /\ e.exc = "ValueError" THEN <<>> ELSE <<"operation-raised">>)
  ELSE Clause(e.pp = PrimPoly[e.m], "primitive-polynomial")
    \o Clause(Len(e.a) = Len(e.b), "length-mismatch-accepted")
    \o Clause(e.mres = e.m, "field-order")
    \o Clause(e.unchanged, "arguments-modified")
    \o Clause(Len(e.r) = Len(e.a) /\ \A i \in 1..Len(e.a) :
                e.r[i] = IF e.op = "add" THEN e.a[i] ^^ e.b[i] ELSE FMul(e.m, e.a[i], e.b[i]),
              IF e.op = "add" THEN "addition" ELSE "multiplication")

VerifyConv(e) ==
  IF Raised(e) THEN <<"conversion-raised">>
  ELSE Clause(Len(e.r) = Len(e.a) /\ e.unchanged, "arguments-modified")
    \o (IF Len(e.r) # Len(e.a) THEN <<"length">>
        ELSE CASE e.op = "p2t" -> Clause(\A i \in 1..Len(e.a) : e.r[i] = FPow(e.m, Alpha(e.m), e.a[i]), "power-to-tuple")
               [] e.op = "t2p" -> Clause(\A i \in 1..Len(e.a) : e.r[i] >= 0 /\ e.r[i] <= 2^e.m - 2
                                          /\ FPow(e.m, Alpha(e.m), e.r[i]) = e.a[i], "tuple-to-power")
               [] e.op = "order" -> Clause(\A i \in 1..Len(e.a) : IsOrder(e.m, e.a[i], e.r[i]), "order"))

VerifyPoly(e) ==
  IF Raised(e) THEN <<"polynomial-raised">>
  ELSE CASE e.op = "divide" -> Clause(e.r = PRem(e.a, e.b), "polydivide")
         [] e.op = "multiply" -> Clause(e.r = PRem(PTrim(PMul(e.a, e.b)), e.p), "polymultiply")
         [] e.op = "string" -> Clause(e.r = SelectSeq([i \in 1..Len(e.a) |-> i - 1], LAMBDA i : e.a[i + 1] = 1), "poly-to-string")

SetOf(s) == {s[i] : i \in 1..Len(s)}
VerifyCosets(e) ==
  IF Raised(e) THEN <<"cosets-raised">>
  ELSE LET els == UNION {SetOf(e.r[i]) : i \in 1..Len(e.r)}
       IN Clause(els = SetOf(e.a), "cover")
       \o Clause(\A i \in 1..Len(e.r) : Len(e.r[i]) > 0 /\ Len(e.r[i]) = Cardinality(SetOf(e.r[i])), "repeated-element")
       \o Clause(\A i, j \in 1..Len(e.r) : i # j => SetOf(e.r[i]) \cap SetOf(e.r[j]) = {}, "disjoint")
       \o Clause(\A i \in 1..Len(e.r) : \A x \in SetOf(e.r[i]) :
                    InF(e.m, x) /\ SetOf(e.r[i]) = Orbit(e.m, x), "orbit")
       \o Clause(\A i \in 1..Len(e.ms) : e.ms[i] = e.m, "field-order")
       \o Clause(e.unchanged, "arguments-modified")

VerifyMinPolys(e) ==
  IF Raised(e) THEN <<"minpolys-raised">>
  ELSE Clause(Len(e.r) = Len(e.a), "length")
    \o Clause(Len(e.r) = Len(e.a) => \A i \in 1..Len(e.a) : IsMinPoly(e.m, e.r[i], e.a[i]), "minimal-polynomial")
    \o Clause(e.unchanged, "arguments-modified")

VerifyCyclic(e) ==
  IF e.n % 2 = 0 THEN Clause(e.exc = "ValueError", "even-length-accepted")
  ELSE IF Raised(e) THEN <<"genpoly-raised">>
  ELSE Clause(e.integral, "not-exact-integers")
    \o Clause(\A i \in 1..Len(e.r) : PDeg(e.r[i]) = e.n - e.k, "degree")
    \o Clause(\A i \in 1..Len(e.r) : Len(e.r[i]) > 0 => PRem(XnPlus1(e.n), e.r[i]) = <<>>, "divisor")
    \o Clause(Cardinality(SetOf(e.r)) = Len(e.r), "repeated-polynomial")
    \o Clause(Len(e.r) = NumDivisors(e.n, e.n - e.k), "number-of-polynomials")

Verify(e) ==
  CASE e.ev = "op" -> VerifyOp(e)
    [] e.ev = "conv" -> VerifyConv(e)
    [] e.ev = "poly" -> VerifyPoly(e)
    [] e.ev = "cosets" -> VerifyCosets(e)
    [] e.ev = "minpolys" -> VerifyMinPolys(e)
    [] e.ev = "cyclic" -> VerifyCyclic(e)

TraceInit == l = Start /\ fails = <<>> /\ done = FALSE
TraceNext ==
  \/ l <= NTrace /\ done' = done /\ l' = l + 1 /\ fails' = AddFails(fails, l, Verify(Trace[l]))
  \/ l > NTrace /\ ~done /\ done' = TRUE /\ Verdict(fails) /\ UNCHANGED <<l, fails>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
