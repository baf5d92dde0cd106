SPECIFICATION Spec
CONSTANTS
  Ps = {32768}
  MaxFiles = 2
INVARIANTS Sane
CHECK_DEADLOCK FALSE
