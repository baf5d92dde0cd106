SPECIFICATION Spec
CONSTANTS
  Ps = {16384, 32768, 65536}
  MaxFiles = 2
INVARIANTS Sane
CHECK_DEADLOCK FALSE
