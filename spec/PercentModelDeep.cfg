SPECIFICATION Spec
CONSTANTS
  AlphabetIn = {37, 52, 97, 70, 71, 126, 43, 200}
  MaxLen = 6
INVARIANTS Lossless Parts Strict Emit
PROPERTY OnceBad
CHECK_DEADLOCK FALSE
