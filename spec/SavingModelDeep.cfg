SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS Whole Faithful Emit
PROPERTY Untouched
CHECK_DEADLOCK FALSE
