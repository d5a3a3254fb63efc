SPECIFICATION Spec
INVARIANTS Recovers RateMet NumberedRegister
CHECK_DEADLOCK FALSE
