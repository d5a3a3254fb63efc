SPECIFICATION Spec
CONSTANT MaxAbs = 1
INVARIANTS Wellformed MaxMarginals Posteriors PeelingOK Fixed
