SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Families = {"red","arr","get"}
  Leaves = {"f","vf","vvf"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
