SPECIFICATION Spec
CONSTANTS P = 5 N = 2 Len0 = {0, 2}
INVARIANTS LinkLaw InverseLaw SplitLaw OrthoLaw JacobianLaw DerivativeLaw
CHECK_DEADLOCK FALSE
