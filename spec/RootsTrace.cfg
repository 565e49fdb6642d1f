SPECIFICATION Spec
CONSTANT S = 4000
INVARIANT Report
CHECK_DEADLOCK FALSE
