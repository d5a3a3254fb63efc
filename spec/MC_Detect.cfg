SPECIFICATION Spec
CONSTANTS N = 2
 MaxR = 2
 MaxY = 2
INVARIANTS True_ NeverBelow Exact Alive
