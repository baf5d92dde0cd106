SPECIFICATION Spec
CONSTANTS
  MaxTok = 4
  Mode = "texts"
INVARIANTS RoundTrip AnyOrder Unknown ReadBack Emit
CHECK_DEADLOCK FALSE
