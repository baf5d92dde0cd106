SPECIFICATION Spec
CONSTANTS
  U = {0, 1, 2, 3, 4, 5, 6, 7}
  Small = {0, 1, 7}
  MaxLen = 3
INVARIANTS Algebra Emit
CHECK_DEADLOCK FALSE
