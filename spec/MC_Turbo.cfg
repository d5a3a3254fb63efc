SPECIFICATION Spec
CONSTANTS N = 4
 Iterations = 3
INVARIANT OwnOrder Decision
PROPERTY Ends
