SPECIFICATION Spec
CONSTANTS
  MaxTok = 4
  Mode = "links"
INVARIANTS RoundTrip AnyOrder Unknown ReadBack Emit
CHECK_DEADLOCK FALSE
