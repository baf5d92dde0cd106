SPECIFICATION Spec
CONSTANTS
  Hashers = {1, 2}
  Parts = {0, 1, 3}
  MaxLen = 7
INVARIANTS Right Same Emit
CHECK_DEADLOCK FALSE
