SPECIFICATION Spec
CONSTANTS Keys = {"open_nodes"} Trees = {1, 2} Nodes = {1, 2}
 Values <- MCValues
INVARIANT Isolation
CONSTRAINT Small
VIEW NoRet
CHECK_DEADLOCK FALSE
