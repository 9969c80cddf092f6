SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Families = {"sum","loop","help","ew"}
  Leaves = {"f"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
