SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Families = {"rec","arr","get","loop"}
  Leaves = {"f","vf","vvf"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
