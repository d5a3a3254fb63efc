SPECIFICATION Spec
CONSTANTS
 Siso = FALSE
 Ntx = 3
 Nrx = 1
INVARIANTS Normalised Hermitian RealIsReal NoiseSane
PROPERTIES RefusedChangesNothing Orthogonal
CHECK_DEADLOCK FALSE
