SPECIFICATION TSpec
CONSTANTS
  Robots = {1, 2, 3, 4, 5}
  Runs = {1, 2, 3}
INVARIANT Report
CHECK_DEADLOCK FALSE
