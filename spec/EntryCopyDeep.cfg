SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS Sane Emit
CHECK_DEADLOCK FALSE
