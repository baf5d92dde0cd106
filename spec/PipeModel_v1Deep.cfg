SPECIFICATION Spec
CONSTANTS
  Mode = "v1"
  MaxFiles = 4
  Ps = {16384, 32768}
  WithPads = TRUE
  MaxDamage = 0
INVARIANTS Sane Emit
CHECK_DEADLOCK FALSE
