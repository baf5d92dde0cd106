SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Names = {".", "..", "R", "R2", "f", "e", "x", "..f", "...", ".h", "s", "t", "g", "..d", "p", "lf", "lx", "ld", "dead", "up", "deep", "abs", "out", "gone"}
INVARIANTS Sane Emit
CHECK_DEADLOCK FALSE
