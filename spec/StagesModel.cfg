SPECIFICATION Spec
CONSTANTS
  MaxItems = 3
  EarlyWaits = TRUE
INVARIANTS Complete OnePlace Covers Emit
CHECK_DEADLOCK FALSE
