SPECIFICATION Spec
CONSTANTS
  Types = {"b64", "u32x64", "s24x32"}
  Counts = {"0", "1", "65", "1000", "over"}
  MaxLen = 5
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
