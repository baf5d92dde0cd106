SPECIFICATION Spec
CONSTANTS
  Items = {1, 2, 3}
  N = 2
INVARIANTS Once Parallel NothingLost Idle
CHECK_DEADLOCK FALSE
