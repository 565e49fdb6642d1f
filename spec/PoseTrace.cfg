SPECIFICATION Spec
INVARIANT Report
CONSTANTS ROT = 60 LEN = 150 JNT = 60
CHECK_DEADLOCK FALSE
