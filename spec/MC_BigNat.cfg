SPECIFICATION Spec
INVARIANTS Canonical Small Laws
