SPECIFICATION Spec
CONSTANTS
  Most = 20
  Free = 7
  Monoids = {"add", "min", "affine", "mat2", "last", "first", "argmin", "vecadd", "cat", "mulmod", "matmul", "nested", "free"}
  Places = {"top", "row", "column", "cell", "fold", "let", "twice", "where"}
INVARIANTS InOrder Done Terminates Emit
CHECK_DEADLOCK FALSE
