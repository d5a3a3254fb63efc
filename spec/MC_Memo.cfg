SPECIFICATION Spec
INVARIANTS FunctionValue HeldUnchanged CacheSound
CHECK_DEADLOCK FALSE
