SPECIFICATION Spec
CONSTANTS
  Counts = {1, 2, 3, 4, 5}
  Vals = {1, 2}
  MaxLen = 6
INVARIANTS Shape Emit
CHECK_DEADLOCK FALSE
