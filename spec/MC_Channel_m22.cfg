SPECIFICATION Spec
CONSTANTS
 Siso = FALSE
 Ntx = 2
 Nrx = 2
INVARIANTS Normalised Hermitian RealIsReal NoiseSane
PROPERTIES RefusedChangesNothing Orthogonal
CHECK_DEADLOCK FALSE
