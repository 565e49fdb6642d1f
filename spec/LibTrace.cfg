SPECIFICATION Spec
CONSTANT P = 46273
INVARIANT Report
CHECK_DEADLOCK FALSE
