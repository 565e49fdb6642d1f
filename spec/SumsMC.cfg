SPECIFICATION Spec
INVARIANT Good
PROPERTY Kept
CONSTANTS NJ = 4 MaxReg = 4
CHECK_DEADLOCK FALSE
