SPECIFICATION Spec
CONSTANTS
  Length = 4
  Backends = {"numpy", "torch", "jax"}
  Bodies = {"scale", "wrong", "tick", "sizes", "const"}
INVARIANTS TracedOnce SignatureEnforced Independent Remembered Emit
CHECK_DEADLOCK FALSE
