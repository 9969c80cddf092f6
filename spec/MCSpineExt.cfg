SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Families = {"ext","arr","get"}
  Leaves = {"f","vf","vvf"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
