SPECIFICATION Spec
INVARIANTS Closed Roots
