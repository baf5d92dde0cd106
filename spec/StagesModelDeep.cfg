SPECIFICATION Spec
CONSTANTS
  MaxItems = 4
  EarlyWaits = TRUE
INVARIANTS Complete OnePlace Covers Emit
CHECK_DEADLOCK FALSE
