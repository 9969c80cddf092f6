SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Families = {"ew","ix","whr","arr","sum","loop","help","let","rec","ext","get","red","cat"}
  Leaves = {"f","i","vf","vvf"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
