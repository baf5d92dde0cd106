SPECIFICATION Spec
CONSTANTS
  Mode = "ver2"
  MaxFiles = 3
  Ps = {16384, 32768}
  WithPads = TRUE
  MaxDamage = 2
INVARIANTS Sane Emit
CHECK_DEADLOCK FALSE
