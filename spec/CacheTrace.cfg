SPECIFICATION TSpec
CONSTANTS
  Names = {1, 2}
  Tables = {1, 2, 3, 4}
  Runs = {1, 2, 3}
INVARIANT Report
CHECK_DEADLOCK FALSE
