SPECIFICATION Spec
INVARIANT Report
CONSTANTS MaxTry = 6 MaxPass = 10
CHECK_DEADLOCK FALSE
