SPECIFICATION Spec
CONSTANT MaxN = 4
INVARIANT Inverse Balanced Determined
