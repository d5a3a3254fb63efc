SPECIFICATION Spec
CONSTANTS Side = 2
 MaxBits = 2
INVARIANTS Valid Detected Roundtrip
