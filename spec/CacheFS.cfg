SPECIFICATION Spec
CONSTANTS
  Names = {1, 2}
  Tables = {1, 2}
  Runs = {1, 2, 3}
  Chunks = 2
  InPlace = FALSE
INVARIANTS Complete NoBroken Right Reason Owned
PROPERTIES Refines Kept
CHECK_DEADLOCK FALSE
