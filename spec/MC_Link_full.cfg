SPECIFICATION Spec
CONSTANT Full = TRUE
INVARIANTS Accounted Sound Minimal
CHECK_DEADLOCK FALSE
