SPECIFICATION Spec
CONSTANTS
  Mode = "hybrid"
  MaxFiles = 3
  Ps = {32768}
  WithPads = FALSE
  MaxDamage = 0
INVARIANTS Sane Emit
CHECK_DEADLOCK FALSE
