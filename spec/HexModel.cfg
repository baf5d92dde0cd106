SPECIFICATION Spec
CONSTANTS
  Alphabet = {48, 57, 97, 70, 103, 47, 45, 43, 32, 176, 120, 0}
  MaxLen = 4
INVARIANTS Lossless Parts Emit
CHECK_DEADLOCK FALSE
