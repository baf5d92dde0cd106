SPECIFICATION Spec
CONSTANTS
  Counts = {1, 2, 3, 5}
  Vals = {1, 2}
  MaxLen = 5
INVARIANTS Shape Emit
CHECK_DEADLOCK FALSE
