SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Families = {"tick","dup","arr","get","loop","whr","let"}
  Leaves = {"f","vf"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
