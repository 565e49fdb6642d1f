SPECIFICATION Spec
INVARIANT Verdict
CONSTANT TOL = 150
CHECK_DEADLOCK FALSE
