SPECIFICATION Spec
CONSTANT TOL = 30
INVARIANT Report
CHECK_DEADLOCK FALSE
