SPECIFICATION Spec
CONSTANT Depth = 5
CONSTANT Caps = {0, 1, 2}
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
