SPECIFICATION Spec
CONSTANTS
  Mode = "hybrid"
  MaxFiles = 4
  Ps = {16384, 32768}
  WithPads = FALSE
  MaxDamage = 0
INVARIANTS Sane Emit
CHECK_DEADLOCK FALSE
