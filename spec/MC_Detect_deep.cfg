SPECIFICATION Spec
CONSTANTS N = 3
 MaxR = 1
 MaxY = 1
INVARIANTS True_ NeverBelow Exact Alive
