SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  Names = {".", "..", "R", "R2", "f", "e", "x", "..f", "...", ".h", "s", "t", "g", "..d", "p", "lf", "lx", "ld", "dead", "up", "deep", "abs", "out", "gone"}
INVARIANTS Sane Emit
CHECK_DEADLOCK FALSE
