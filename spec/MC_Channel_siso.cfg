SPECIFICATION Spec
CONSTANTS
 Siso = TRUE
 Ntx = 1
 Nrx = 1
INVARIANTS Normalised Hermitian RealIsReal NoiseSane
PROPERTIES RefusedChangesNothing Orthogonal
CHECK_DEADLOCK FALSE
