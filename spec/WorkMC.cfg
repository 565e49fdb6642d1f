SPECIFICATION MSpec
CONSTANTS
  Robots = {1, 2}
  Runs = {1, 2, 3}
INVARIANTS Shown Whole Refused TornBy Temps
PROPERTIES Ends Frame Stays
CHECK_DEADLOCK FALSE
