SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS Sane Emit
CHECK_DEADLOCK FALSE
