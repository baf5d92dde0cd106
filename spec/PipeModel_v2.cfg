SPECIFICATION Spec
CONSTANTS
  Mode = "v2"
  MaxFiles = 2
  Ps = {16384, 32768, 65536}
  WithPads = FALSE
  MaxDamage = 0
INVARIANTS Sane Emit
CHECK_DEADLOCK FALSE
