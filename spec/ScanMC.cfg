SPECIFICATION Spec
INVARIANTS Partition NoneElse Ranked Empty
PROPERTY Lower
CONSTANTS NU = 2 NE = 2
CHECK_DEADLOCK FALSE
