SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Families = {"ix","get"}
  Leaves = {"i","vf","vvf"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
