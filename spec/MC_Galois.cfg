SPECIFICATION Spec
CONSTANT MaxM = 7
INVARIANTS InField Primitive PowerLaw OrderLaw Frobenius Laws MinPoly
