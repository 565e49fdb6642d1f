SPECIFICATION TSpec
CONSTANTS Keys = {} Trees = {} Nodes = {} Values = {}
INVARIANTS Report
VIEW View
CHECK_DEADLOCK FALSE
