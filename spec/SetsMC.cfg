SPECIFICATION Spec
INVARIANT Good
CONSTANTS N = 4 MaxSol = 2
CHECK_DEADLOCK FALSE
