SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Bias = 2
  Consts = {0, 2, 3, 5}
  Dims = {1, 2, 3, 4, 5}
  Sizes = {0, 1, 2, 3, 4, 5, 6}
  Window = 6
INVARIANTS Recognised SliceRight Emit
CHECK_DEADLOCK FALSE
