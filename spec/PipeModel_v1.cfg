SPECIFICATION Spec
CONSTANTS
  Mode = "v1"
  MaxFiles = 3
  Ps = {16384}
  WithPads = TRUE
  MaxDamage = 0
INVARIANTS Sane Emit
CHECK_DEADLOCK FALSE
