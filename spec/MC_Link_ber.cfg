SPECIFICATION Spec
CONSTANT Full = FALSE
INVARIANTS Accounted Sound Minimal
CHECK_DEADLOCK FALSE
