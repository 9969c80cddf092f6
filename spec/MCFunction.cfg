SPECIFICATION Spec
CONSTANTS
  Length = 3
  Backends = {"numpy", "torch"}
  Bodies = {"poly", "scale", "wrong", "tick", "sizes", "const"}
INVARIANTS TracedOnce SignatureEnforced Independent Remembered Emit
CHECK_DEADLOCK FALSE
