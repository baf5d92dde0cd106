SPECIFICATION Spec
CONSTANTS
  MaxTok = 5
  Mode = "texts"
INVARIANTS RoundTrip AnyOrder Unknown ReadBack Emit
CHECK_DEADLOCK FALSE
