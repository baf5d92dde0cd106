SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Exps = {14, 15}
  Which = "edits"
INVARIANTS Sane Emit
CHECK_DEADLOCK FALSE
