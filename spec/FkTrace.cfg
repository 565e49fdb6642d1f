SPECIFICATION Spec
INVARIANT Report
CONSTANTS ROT = 60 LEN = 150
CHECK_DEADLOCK FALSE
