SPECIFICATION Spec
CONSTANT Depth = 4
CONSTANT Caps = {1, 2}
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
