SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Families = {"tick","dup","arr","get"}
  Leaves = {"f","vf"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
