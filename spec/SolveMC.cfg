SPECIFICATION Spec
INVARIANTS Distinct Dense WellFounded Bounds Truthful Fair Working
PROPERTIES Frozen Ends
CONSTANTS MaxTry = 2 MaxPass = 2 N0 = 2 NMax = 3
CHECK_DEADLOCK FALSE
