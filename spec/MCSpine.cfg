SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Families = {"ew","ix","whr","arr","sum","loop","help","let","rec","ext","get","red","cat"}
  Leaves = {"f","i","vf","vvf"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
