SPECIFICATION Spec
CONSTANTS
  Urls = {1, 2, 3}
  MaxLen = 5
  Kind = "meta"
INVARIANTS Sane Emit
CHECK_DEADLOCK FALSE
