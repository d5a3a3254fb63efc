SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANT BruteForce BigNatRight
