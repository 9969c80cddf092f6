SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Families = {"arr","get","sum","rec","whr","cat","let"}
  Leaves = {"f","vf","vvf"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
