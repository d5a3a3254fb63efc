SPECIFICATION Spec
CONSTANT MaxAbs = 2
INVARIANTS Wellformed MaxMarginals Posteriors PeelingOK Fixed
