SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Bias = 3
  Consts = {0, 2, 3, 5, 7}
  Dims = {1, 2, 3, 4, 5}
  Sizes = {0, 1, 2, 3, 4, 5, 6}
  Window = 6
INVARIANTS Recognised SliceRight Emit
CHECK_DEADLOCK FALSE
