SPECIFICATION Spec
CONSTANT MaxT = 5
INVARIANT Optimal
