SPECIFICATION Spec
CONSTANTS MaxT = 14
  Depths = {4, 6, 10}
INVARIANT Right
