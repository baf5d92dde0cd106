SPECIFICATION Spec
CONSTANT Bytes5 = {0, 1, 127, 128, 255}
INVARIANTS Sane Emit
CHECK_DEADLOCK FALSE
