SPECIFICATION Spec
CONSTANTS
  Mode = "ver1"
  MaxFiles = 2
  Ps = {16384, 32768}
  WithPads = FALSE
  MaxDamage = 1
INVARIANTS Sane Emit
CHECK_DEADLOCK FALSE
