SPECIFICATION Spec
CONSTANT What = "write"
VIEW View
INVARIANTS WrittenIsRead Homogeneous Again OuterFree ReadIsKept Emit
CHECK_DEADLOCK FALSE
