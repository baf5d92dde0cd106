SPECIFICATION Spec
CONSTANTS
  Urls = {1, 2, 3}
  MaxLen = 4
  Kind = "list"
INVARIANTS Sane Emit
CHECK_DEADLOCK FALSE
