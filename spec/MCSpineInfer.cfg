SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Families = {"arr","get","sum"}
  Leaves = {"f","vf","vvf"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
