SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Families = {"ix","get"}
  Leaves = {"i","vf","vvf"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
