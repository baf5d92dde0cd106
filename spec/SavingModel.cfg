SPECIFICATION Spec
CONSTANT MaxLen = 2
INVARIANTS Whole Faithful Emit
PROPERTY Untouched
CHECK_DEADLOCK FALSE
