SPECIFICATION Spec
CONSTANTS
  Parts = {0, 2}
  MaxJobs = 2
  MaxLen = 5
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
