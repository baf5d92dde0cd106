SPECIFICATION Spec
CONSTANTS
  MaxFiles = 5
  Sz <- SzDef
  Exps = {14, 15, 17}
INVARIANTS Sane Emit
CHECK_DEADLOCK FALSE
