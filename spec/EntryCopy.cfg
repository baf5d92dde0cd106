SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS Sane Emit
CHECK_DEADLOCK FALSE
