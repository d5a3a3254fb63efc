SPECIFICATION Spec
INVARIANTS Prefix SliceOK Readable
CHECK_DEADLOCK FALSE
